//! Connecting (C16): real connections, and answers of the OS played by the harness.
use crate::io_hist::{drain, fill};
use crate::rt;
use crate::util::*;
use async_io::Async;
use std::future::Future;
use std::io::{self, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::unix::io::{AsRawFd, FromRawFd, IntoRawFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::pin::Pin;
use std::task::Poll;

// ------------------------------------------------------------------ a connection played by the harness
struct Sim { answer: i32, fd: i32, peer: i32, addr: Vec<u8>, calls: u32, sockerr: i32, asked: u32, connected: bool, target: Vec<u8>, played: bool }
static SIM: Sh<Sim> = Sh::new(Sim { answer: rt::PASS, fd: -1, peer: -1, addr: vec![], calls: 0, sockerr: 0, asked: 0, connected: false, target: vec![], played: false });

/// connect: records the address and answers as chosen.  While the attempt is "in progress" the
/// descriptor refers to one end of a full socket pair, which is neither readable nor writable.
extern "C" fn on_connect(fd: i32, a: *const libc::sockaddr, l: libc::socklen_t) -> i32 {
    let s = SIM.get();
    s.calls += 1;
    s.fd = fd;
    s.addr = unsafe { std::slice::from_raw_parts(a as *const u8, l as usize) }.to_vec();
    check!(fd_nonblocking(fd), "connect called on a blocking socket");
    if s.answer == 0 || s.answer == libc::EINPROGRESS {
        let (x, y) = UnixStream::pair().unwrap();
        let x = x.into_raw_fd();
        unsafe {
            raw(libc::SYS_dup3, [x as i64, fd as i64, libc::O_CLOEXEC as i64, 0, 0, 0]);
            raw(libc::SYS_close, [x as i64, 0, 0, 0, 0, 0]);
            raw(libc::SYS_fcntl, [fd as i64, libc::F_SETFL as i64, (libc::O_NONBLOCK | libc::O_RDWR) as i64, 0, 0, 0]);
        }
        y.set_nonblocking(true).unwrap();
        s.peer = y.into_raw_fd(); s.played = true;
        if s.answer == libc::EINPROGRESS { fill(fd) } else { s.connected = true }
    }
    s.answer
}
/// SO_ERROR: reported once.
extern "C" fn on_sockerr(fd: i32) -> i32 { let s = SIM.get(); if fd != s.fd { return rt::PASS } s.asked += 1; std::mem::take(&mut s.sockerr) }
extern "C" fn on_peer(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i32 {
    let s = SIM.get();
    if fd != s.fd || !s.played { return rt::PASS }
    if !s.connected { return libc::ENOTCONN }
    unsafe { let n = s.target.len().min(*l as usize); std::ptr::copy_nonoverlapping(s.target.as_ptr(), a as *mut u8, n); *l = s.target.len() as u32; }
    0
}
fn sockaddr(a: &SocketAddr) -> Vec<u8> {
    unsafe fn bytes<T>(t: &T) -> Vec<u8> { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()).to_vec() }
    match a {
        SocketAddr::V4(v) => { let mut s: libc::sockaddr_in = unsafe { std::mem::zeroed() }; s.sin_family = libc::AF_INET as _; s.sin_port = v.port().to_be(); s.sin_addr.s_addr = u32::from_ne_bytes(v.ip().octets()); unsafe { bytes(&s) } }
        SocketAddr::V6(v) => { let mut s: libc::sockaddr_in6 = unsafe { std::mem::zeroed() }; s.sin6_family = libc::AF_INET6 as _; s.sin6_port = v.port().to_be(); s.sin6_addr.s6_addr = v.ip().octets(); s.sin6_flowinfo = v.flowinfo(); s.sin6_scope_id = v.scope_id(); unsafe { bytes(&s) } }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev { Readable, Success, Refused, TimedOut, Hup, Poll, Cancel }
fn play(ev: Ev) {
    let s = SIM.get();
    match ev {
        Ev::Readable => { rt::kop(); let b = [1u8]; unsafe { raw(libc::SYS_write, [s.peer as i64, b.as_ptr() as i64, 1, 0, 0, 0]) }; rt::kdirty() }
        Ev::Success => { s.connected = true; rt::kop(); drain(s.peer); rt::kdirty() }
        Ev::Refused => { s.sockerr = libc::ECONNREFUSED; rt::kop(); drain(s.peer); rt::kdirty() }
        Ev::TimedOut => { s.sockerr = libc::ETIMEDOUT; rt::kop(); drain(s.peer); rt::kdirty() }
        // refused, reported as a hang-up
        Ev::Hup => { s.sockerr = libc::ECONNREFUSED; rt::kop(); drain(s.peer); unsafe { raw(libc::SYS_close, [s.peer as i64, 0, 0, 0, 0, 0]) }; s.peer = -1; rt::kdirty() }
        _ => {}
    }
}
fn begin(answer: i32, target: Vec<u8>) { let s = SIM.get(); s.answer = answer; s.target = target; rt::connect_hook(on_connect); rt::sockerr_hook(on_sockerr); rt::peer_hook(on_peer); }
fn sim_fds() -> i64 { (SIM.get().peer >= 0) as i64 }

/// What is left of a failed or cancelled attempt: nothing.
fn gone(fds: i64, reg: i32, what: &str) {
    check!(count_fds() as i64 - sim_fds() == fds, "{what}: {} descriptors instead of {fds}", count_fds() as i64 - sim_fds());
    check!(rt::count_registered() == reg, "{what}: something stays registered");
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "{what}: descriptor closed while registered, or twice");
}
type F<T> = Pin<Box<dyn Future<Output = io::Result<Async<T>>>>>;
trait Peer: AsRawFd + 'static { fn has_peer(&self) -> bool; }
impl Peer for TcpStream { fn has_peer(&self) -> bool { self.peer_addr().is_ok() } }
impl Peer for UnixStream { fn has_peer(&self) -> bool { self.peer_addr().is_ok() } }

fn follow<T: Peer>(mut f: F<T>, answer: i32, unix: bool, alphabet: &[Ev], steps: usize, fds: i64, reg: i32) {
    let w = W::new("w");
    let mut over: Option<Ev> = None; // the attempt has ended this way
    let mut n = 0;
    let mut readable = false;
    let mut rounds = 0;
    loop {
        let nf = rt::nfaults();
        let p = poll(f.as_mut(), w);
        let faulted = rt::nfaults() > nf;
        let s = SIM.get();
        rounds += 1;
        check!(rounds < 20, "the attempt has ended but the future does not");
        if !faulted && s.calls > 0 { check!(s.calls == 1, "{} attempts", s.calls); check!(unix || s.addr == s.target, "connects to another address: {:?} instead of {:?}", s.addr, s.target); }
        match p {
            Poll::Ready(Err(e)) => {
                drop(f);
                gone(fds, reg, "failed");
                rt::note(e.raw_os_error().unwrap_or(-1) as u64);
                if faulted { check!(e.raw_os_error() == Some(rt::last_fault()), "error {e:?} instead of {}", rt::last_fault()); return }
                match (answer, over) {
                    (libc::EINPROGRESS, Some(Ev::Refused | Ev::Hup)) => check!(unix || e.raw_os_error() == Some(libc::ECONNREFUSED), "error {e:?}"),
                    (libc::EINPROGRESS, Some(Ev::TimedOut)) => check!(unix || e.raw_os_error() == Some(libc::ETIMEDOUT), "error {e:?}"),
                    (libc::EINPROGRESS, _) => rt::fail(&format!("failed with {e:?} although the attempt {}", if over.is_some() { "succeeded" } else { "is in progress" })),
                    (0, _) => rt::fail(&format!("failed with {e:?} although the connection was made")),
                    (libc::EAGAIN, _) => {}
                    (x, _) => check!(e.raw_os_error() == Some(x), "error {e:?} instead of {x}"),
                }
                return;
            }
            Poll::Ready(Ok(st)) => {
                let fd = st.as_raw_fd();
                check!(fd == s.fd && fd_open(fd) && rt::registered(fd) && fd_nonblocking(fd), "the stream is not the connected socket, closed, not registered, or blocking");
                check!(answer == 0 || (answer == libc::EINPROGRESS && over == Some(Ev::Success)), "succeeded although the OS answered {answer} and then {over:?}");
                check!(st.get_ref().has_peer(), "not connected");
                drop(f);
                drop(st);
                check!(w.refs() == 0, "waker still held");
                gone(fds, reg, "after dropping the stream");
                return;
            }
            Poll::Pending => {
                if over.is_none() && answer == libc::EINPROGRESS && s.calls == 1 {
                    if n == steps { drop(f); gone(fds, reg, "cancelled"); check!(w.refs() == 0, "waker still held"); return }
                    n += 1;
                    let evs: Vec<Ev> = alphabet.iter().copied().filter(|e| *e != Ev::Readable || !readable).collect();
                    let ev = evs[rt::choose(evs.len())];
                    rt::log(&format!("event {ev:?}"));
                    let before = w.n();
                    play(ev);
                    match ev {
                        Ev::Cancel => { drop(f); gone(fds, reg, "cancelled"); check!(w.refs() == 0, "waker still held"); return }
                        Ev::Readable => readable = true,
                        Ev::Poll => {}
                        _ => over = Some(ev),
                    }
                    if ev != Ev::Poll { rt::settle() }
                    if over.is_some() { check!(w.n() > before, "not woken when the attempt ended") }
                } else {
                    // the attempt is over: the future must be, too
                    rt::settle();
                    check!(w.n() > 0, "pending although the attempt has ended, and not woken");
                }
            }
        }
    }
}
fn tcp_target(k: usize) -> SocketAddr {
    match k { 0 => ([127, 1, 2, 3], 4567).into(), _ => SocketAddr::V6(std::net::SocketAddrV6::new(std::net::Ipv6Addr::new(0xfe80, 1, 2, 3, 4, 5, 6, 7), 9, 0, 11)) }
}
/// Every answer of the OS, every order of events while the attempt is in progress.
pub fn conn_tcp() {
    boot(); rt::time_points(false);
    let a = tcp_target(rt::choose(2));
    let answers = [libc::EINPROGRESS, 0, libc::ECONNREFUSED, libc::ENETUNREACH, libc::EADDRNOTAVAIL, libc::EAGAIN, libc::EACCES];
    let ans = answers[rt::choose(answers.len())];
    begin(ans, sockaddr(&a));
    let (fds, reg) = (count_fds() as i64, rt::count_registered());
    let f: F<TcpStream> = Box::pin(Async::<TcpStream>::connect(a));
    use Ev::*;
    follow(f, ans, false, &[Success, Refused, TimedOut, Hup, Readable, Poll, Cancel], depth(3, 5), fds, reg);
}
pub fn conn_unix() {
    boot(); rt::time_points(false);
    let answers = [libc::EINPROGRESS, 0, libc::ECONNREFUSED, libc::ENOENT, libc::EACCES, libc::EPROTOTYPE];
    let ans = answers[rt::choose(answers.len())];
    begin(ans, vec![1, 0]); // a family and nothing else: unnamed
    let (fds, reg) = (count_fds() as i64, rt::count_registered());
    let path = ["/tmp/mc-never-there", "\0mc-never-there"][rt::choose(2)];
    let f: F<UnixStream> = Box::pin(async move {
        let r = Async::<UnixStream>::connect(path).await;
        r
    });
    use Ev::*;
    follow(f, ans, true, &[Success, Refused, Hup, Readable, Poll, Cancel], depth(3, 5), fds, reg);
    let s = SIM.get();
    if s.calls > 0 {
        check!(s.addr[..2] == [1, 0], "another address family");
        let p = &s.addr[2..];
        let p = if p[0] != 0 { p.split(|&b| b == 0).next().unwrap() } else { p };
        check!(p == path.as_bytes(), "connects to another path {p:?}");
    }
}
/// Errors of the OS on the way.
pub fn conn_fault() {
    boot(); rt::time_points(false);
    let a = tcp_target(0);
    let ans = [libc::EINPROGRESS, 0][rt::choose(2)];
    let tcp = rt::choose(2) == 0;
    begin(ans, if tcp { sockaddr(&a) } else { vec![1, 0] });
    let (fds, reg) = (count_fds() as i64, rt::count_registered());
    rt::fault_set(rt::FC_SOCKET, &[libc::EMFILE]);
    rt::fault_set(rt::FC_ADD, &[libc::ENOSPC]);
    rt::fault_set(rt::FC_MOD, &[libc::ENOMEM]);
    rt::fault_set(rt::FC_GETSOCKOPT, &[libc::ENOBUFS]);
    rt::fault_set(rt::FC_CONNECT, &[libc::EHOSTUNREACH]);
    use Ev::*;
    if tcp { follow(Box::pin(Async::<TcpStream>::connect(a)) as F<TcpStream>, ans, false, &[Success, Refused, Readable], 2, fds, reg) }
    else { follow(Box::pin(Async::<UnixStream>::connect("/tmp/mc-never-there")) as F<UnixStream>, ans, true, &[Success, Refused, Readable], 2, fds, reg) }
}
/// The attempt ends on another thread at any moment; the task runs in block_on or is polled by hand.
pub fn conn_race() {
    boot(); rt::time_points(false);
    let a = tcp_target(0);
    begin(libc::EINPROGRESS, sockaddr(&a));
    let ev = [Ev::Success, Ev::Refused, Ev::Hup][rt::choose(3)];
    let early = rt::choose(2) == 1;
    let (fds, reg) = (count_fds() as i64, rt::count_registered());
    let h = spawn(move || {
        // the attempt cannot end before it has begun
        let s = SIM.get();
        while s.peer < 0 { rt::yield_() }
        if early { play(Ev::Readable) }
        play(ev);
    });
    let r = async_io::block_on(Async::<TcpStream>::connect(a));
    match r {
        Ok(st) => { check!(ev == Ev::Success && SIM.get().connected, "succeeded although it was refused, or before it was connected"); drop(st) }
        Err(e) => check!(ev != Ev::Success && e.raw_os_error() == Some(libc::ECONNREFUSED), "error {e:?}"),
    }
    h.join().unwrap();
    gone(fds, reg, "in the end");
    check!(rt::stat(1) == 0, "a thread blocked in I/O");
}

// ------------------------------------------------------------------ real connections
fn scratch(n: &str) -> PathBuf { let p = std::env::temp_dir().join(format!("mc-{}-{n}", std::process::id())); let _ = std::fs::remove_file(&p); p }
struct Rm(PathBuf);
impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn run<T>(f: impl Future<Output = io::Result<Async<T>>>, driven: bool) -> io::Result<Async<T>> {
    if driven { return async_io::block_on(f) }
    let w = W::new("w");
    let mut f = Box::pin(f);
    for _ in 0..8 { if let Poll::Ready(r) = poll(f.as_mut(), w) { return r } let n = w.n(); if n == 0 { rt::settle(); check!(w.n() > 0, "not woken") } else { rt::settle() } }
    rt::fail("does not end")
}
fn talk(mut a: impl Read + Write, mut b: impl Read + Write) {
    b.write_all(b"ping").unwrap();
    let mut x = [0u8; 4];
    for _ in 0..5 { match a.read(&mut x) { Ok(n) => { check!(n == 4 && &x == b"ping", "not connected to the given address"); break } Err(e) => { check!(e.kind() == io::ErrorKind::WouldBlock, "{e:?}"); rt::settle() } } }
    check!(&x == b"ping", "not connected to the given address");
    a.write_all(b"pong").unwrap(); b.read_exact(&mut x).unwrap(); check!(&x == b"pong", "not connected to the given address");
}
pub fn conn_real() {
    boot(); rt::time_points(false); rt::tcp(2);
    let driven = rt::choose(2) == 1;
    let k = rt::choose(14);
    let (fds, reg) = (count_fds() as i64, rt::count_registered());
    let err = |r: io::Result<Async<UnixStream>>| -> io::Error { match r { Ok(s) => { let c = s.get_ref().peer_addr(); rt::fail(&format!("connected to nobody ({c:?})")) } Err(e) => e } };
    match k {
        0 | 1 => {
            let l = TcpListener::bind(if k == 0 { lo() } else { "[::1]:0".parse().unwrap() });
            let Ok(l) = l else { return }; // no IPv6 here
            let a = l.local_addr().unwrap();
            let s = run(Async::<TcpStream>::connect(a), driven).unwrap_or_else(|e| rt::fail(&format!("cannot connect: {e}")));
            check!(s.get_ref().peer_addr().ok() == Some(a), "connected to another address");
            let (p, from) = l.accept().unwrap();
            check!(Some(from) == s.get_ref().local_addr().ok(), "another connection");
            talk(s.get_ref(), &p);
            check!(fd_nonblocking(s.as_raw_fd()), "blocking");
        }
        2 => {
            let l = TcpListener::bind(lo()).unwrap(); let a = l.local_addr().unwrap(); drop(l);
            match run(Async::<TcpStream>::connect(a), driven) { Ok(_) => rt::fail("connected to a closed port"), Err(e) => check!(e.raw_os_error() == Some(libc::ECONNREFUSED), "error {e:?}") }
        }
        // a listener that closes the connection at once
        3 => {
            let l = TcpListener::bind(lo()).unwrap(); let a = l.local_addr().unwrap();
            let s = run(Async::<TcpStream>::connect(a), driven).unwrap();
            drop(l.accept().unwrap()); rt::settle();
            let mut b = [0u8; 4];
            for _ in 0..5 { if let Ok(n) = s.get_ref().read(&mut b) { check!(n == 0, "data from nowhere"); break } rt::settle() }
        }
        4 | 5 => {
            let p = scratch("c"); let _r = Rm(p.clone());
            let (l, target): (UnixListener, PathBuf) = if k == 4 { (UnixListener::bind(&p).unwrap(), p.clone()) } else {
                use std::os::linux::net::SocketAddrExt; let n = format!("mc-{}-c", std::process::id());
                (UnixListener::bind_addr(&std::os::unix::net::SocketAddr::from_abstract_name(&n).unwrap()).unwrap(), PathBuf::from(format!("\0{n}")))
            };
            let s = run(Async::<UnixStream>::connect(&target), driven).unwrap_or_else(|e| rt::fail(&format!("cannot connect: {e}")));
            let (c, _) = l.accept().unwrap();
            talk(s.get_ref(), &c);
        }
        6 => { let e = err(run(Async::<UnixStream>::connect(scratch("none")), driven)); check!(e.raw_os_error() == Some(libc::ENOENT), "error {e:?}") }
        7 => { let e = err(run(Async::<UnixStream>::connect(format!("/tmp/{}", "x".repeat(200))), driven)); check!(matches!(e.raw_os_error(), None | Some(libc::ENAMETOOLONG) | Some(libc::EINVAL)), "error {e:?}") }
        8 => { let e = err(run(Async::<UnixStream>::connect("/tmp/a\0b"), driven)); check!(matches!(e.raw_os_error(), None | Some(libc::EINVAL)), "error {e:?}") }
        9 => { let e = err(run(Async::<UnixStream>::connect("\0mc-nobody-listens"), driven)); check!(e.raw_os_error() == Some(libc::ECONNREFUSED), "error {e:?}") }
        10 => { let p = scratch("r"); let _r = Rm(p.clone()); drop(UnixListener::bind(&p).unwrap()); let e = err(run(Async::<UnixStream>::connect(&p), driven)); check!(e.raw_os_error() == Some(libc::ECONNREFUSED), "error {e:?}") }
        11 => { let p = scratch("f"); let _r = Rm(p.clone()); std::fs::write(&p, b"").unwrap(); let e = err(run(Async::<UnixStream>::connect(&p), driven)); check!(matches!(e.raw_os_error(), Some(libc::ECONNREFUSED) | Some(libc::ENOTSOCK)), "error {e:?}") }
        // unusual abstract names, beside a listener of a similar one
        12 => {
            use std::os::linux::net::SocketAddrExt; use std::os::unix::ffi::OsStrExt;
            let addr = |n: &[u8]| std::os::unix::net::SocketAddr::from_abstract_name(n).unwrap();
            let mut n = format!("mc-{}-n", std::process::id()).into_bytes();
            let decoy = n.clone();
            match rt::choose(6) { 0 => n.push(0), 1 => n.extend(b"\0x"), 2 => n.push(0xff), 3 => n.resize(107, b'x'), 4 => n.extend(b"/../a"), _ => n.insert(0, 0) }
            let (l, d) = (UnixListener::bind_addr(&addr(&n)).unwrap(), UnixListener::bind_addr(&addr(&decoy)).unwrap());
            d.set_nonblocking(true).unwrap();
            let mut t = vec![0]; t.extend(&n);
            let s = run(Async::<UnixStream>::connect(std::ffi::OsStr::from_bytes(&t)), driven).unwrap_or_else(|e| rt::fail(&format!("cannot connect: {e}")));
            check!(d.accept().is_err(), "connected to another name");
            let (c, _) = l.accept().unwrap();
            talk(s.get_ref(), &c);
        }
        // a full backlog: the attempt cannot succeed now
        _ => {
            let p = scratch("b"); let _r = Rm(p.clone());
            let l = UnixListener::bind(&p).unwrap();
            unsafe { raw(libc::SYS_listen, [l.as_raw_fd() as i64, 0, 0, 0, 0, 0]) };
            let _c = UnixStream::connect(&p).unwrap();
            let w = W::new("w");
            let mut f = Box::pin(Async::<UnixStream>::connect(&p));
            let mut done = false;
            for _ in 0..5 {
                match poll(f.as_mut(), w) { Poll::Ready(Ok(s)) => { let _ = s.get_ref().peer_addr(); rt::fail("connected although the backlog is full") } Poll::Ready(Err(_)) => { done = true; break } Poll::Pending => rt::settle() }
            }
            rt::note(done as u64);
        }
    }
    gone(fds, reg, "in the end");
    rt::note(k as u64);
}
pub fn unused() { let _ = unsafe { std::fs::File::from_raw_fd(2) }.into_raw_fd(); }
