//! The I/O adapters (C14): on a scripted object, and on real sockets with injected errors.
use crate::io_hist::{drain, fill};
use crate::rt;
use crate::util::*;
use async_io::{Async, IoSafe, Timer};
use futures_io::{AsyncRead, AsyncWrite};
use futures_lite::{Stream, StreamExt};
use std::cell::Cell;
use std::future::Future;
use std::io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::pin::Pin;
use std::task::{Context, Poll};

// ------------------------------------------------------------------ a scripted object

/// What the object was asked to do last: which operation, with which buffer.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Call { op: u8, ptr: usize, len: usize, nbuf: usize }
/// What it answers.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans { Block, BlockOs, Done(usize), Kind(ErrorKind), Os(i32) }
struct Mock { s: UnixStream, calls: Sh<Vec<Call>>, ans: Sh<Vec<Ans>>, blocks: usize }
impl AsFd for Mock { fn as_fd(&self) -> BorrowedFd<'_> { self.s.as_fd() } }
unsafe impl IoSafe for Mock {}
const ANSWERS: [Ans; 9] = [Ans::Done(2), Ans::Block, Ans::Done(0), Ans::Kind(ErrorKind::Interrupted), Ans::Kind(ErrorKind::TimedOut), Ans::Os(libc::EINPROGRESS), Ans::BlockOs, Ans::Os(libc::ECONNRESET), Ans::Done(usize::MAX)];
impl Mock {
    fn answer(&self, op: u8, ptr: usize, len: usize, nbuf: usize) -> io::Result<usize> {
        let blocked = self.ans.get().iter().filter(|a| matches!(a, Ans::Block | Ans::BlockOs)).count();
        check!(self.ans.get().len() == blocked, "the operation was carried out again after it had ended");
        self.calls.get().push(Call { op, ptr, len, nbuf });
        let a = loop {
            let a = ANSWERS[rt::choose(if blocked >= self.blocks { 6 } else { ANSWERS.len() })];
            if blocked >= self.blocks && matches!(a, Ans::Block | Ans::BlockOs) { break Ans::Done(1) }
            break a
        };
        rt::log(&format!("op {op} answers {a:?}"));
        self.ans.get().push(a);
        match a {
            Ans::Block => Err(io::Error::new(ErrorKind::WouldBlock, "later")),
            Ans::BlockOs => Err(io::Error::from_raw_os_error(libc::EAGAIN)),
            Ans::Done(n) => Ok(n.min(len)),
            Ans::Kind(k) => Err(io::Error::new(k, "mine")),
            Ans::Os(e) => Err(io::Error::from_raw_os_error(e)),
        }
    }
    fn rd(&self, b: &mut [u8]) -> io::Result<usize> { let r = self.answer(0, b.as_ptr() as usize, b.len(), 1); if let Ok(n) = r { b[..n].fill(0xa5) } r }
    fn rdv(&self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let l = b.iter().map(|x| x.len()).sum();
        let r = self.answer(1, b[0].as_ptr() as usize, l, b.len());
        if let Ok(mut n) = r { for x in b.iter_mut() { let k = n.min(x.len()); x[..k].fill(0xa5); n -= k } }
        r
    }
    fn wr(&self, b: &[u8]) -> io::Result<usize> { check!(b.iter().all(|&x| x == 7), "the caller's data was changed"); self.answer(2, b.as_ptr() as usize, b.len(), 1) }
    fn wrv(&self, b: &[IoSlice<'_>]) -> io::Result<usize> { self.answer(3, b[0].as_ptr() as usize, b.iter().map(|x| x.len()).sum(), b.len()) }
    fn fl(&self) -> io::Result<()> { self.answer(4, 0, 0, 0).map(|_| ()) }
}
impl Read for Mock { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> { self.rdv(b) } }
impl Write for Mock { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> { self.wrv(b) } fn flush(&mut self) -> io::Result<()> { self.fl() } }
impl Read for &Mock { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> { self.rdv(b) } }
impl Write for &Mock { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> { self.wrv(b) } fn flush(&mut self) -> io::Result<()> { self.fl() } }

/// The caller's side of one adapter: one poll.
type Step<'a> = Box<dyn FnMut(&mut Context<'_>) -> Poll<io::Result<usize>> + 'a>;

/// `faults`: arming the wait may fail, which the caller is told.
fn adapter(form: usize, blocks: usize, faults: bool) {
    let (a, peer) = UnixStream::pair().unwrap();
    peer.set_nonblocking(true).unwrap();
    let fd = a.as_raw_fd();
    let fd2 = peer.as_raw_fd();
    fill(fd);
    let m = Box::into_raw(Box::new(Async::new(Mock { s: a, calls: Sh::new(vec![]), ans: Sh::new(vec![]), blocks }).unwrap()));
    let mk: &'static Mock = unsafe { &*m }.get_ref();
    let by_ref: &'static Async<Mock> = unsafe { &*m };
    let (bufp, buf2p) = (Box::into_raw(Box::new([7u8; 8])), Box::into_raw(Box::new([7u8; 8])));
    let bp = bufp as usize;
    // (operation, direction, buffer length, buffers)
    let (op, dir, len, nbuf) = match form % 6 { 0 => (0, 0, 8, 1), 1 => (1, 0, 16, 2), 2 => (2, 1, 8, 1), 3 => (3, 1, 16, 2), _ => (4, 1, 0, 0) };
    let (op, dir, len, nbuf) = match form { 12 | 13 => (0, 0, 8, 1), 14 | 15 => (2, 1, 8, 1), _ => (op, dir, len, nbuf) };
    let bp = if op == 4 { 0 } else { bp };
    fn fut<'a>(f: impl Future<Output = io::Result<usize>> + 'a) -> Step<'a> { let mut f = Box::pin(f); Box::new(move |cx| f.as_mut().poll(cx)) }
    let polled = leak(Sh::new(0u32));
    let make = move || -> Step<'static> { unsafe { match form {
        0 => Box::new(move |cx| Pin::new(&mut *m).poll_read(cx, &mut *bufp)),
        1 => Box::new(move |cx| Pin::new(&mut *m).poll_read_vectored(cx, &mut [IoSliceMut::new(&mut *bufp), IoSliceMut::new(&mut *buf2p)])),
        2 => Box::new(move |cx| Pin::new(&mut *m).poll_write(cx, &*bufp)),
        3 => Box::new(move |cx| Pin::new(&mut *m).poll_write_vectored(cx, &[IoSlice::new(&*bufp), IoSlice::new(&*buf2p)])),
        4 => Box::new(move |cx| Pin::new(&mut *m).poll_flush(cx).map(|r| r.map(|_| 0))),
        5 => Box::new(move |cx| Pin::new(&mut *m).poll_close(cx).map(|r| r.map(|_| 0))),
        6 => Box::new(move |cx| Pin::new(&mut &*by_ref).poll_read(cx, &mut *bufp)),
        7 => Box::new(move |cx| Pin::new(&mut &*by_ref).poll_read_vectored(cx, &mut [IoSliceMut::new(&mut *bufp), IoSliceMut::new(&mut *buf2p)])),
        8 => Box::new(move |cx| Pin::new(&mut &*by_ref).poll_write(cx, &*bufp)),
        9 => Box::new(move |cx| Pin::new(&mut &*by_ref).poll_write_vectored(cx, &[IoSlice::new(&*bufp), IoSlice::new(&*buf2p)])),
        10 => Box::new(move |cx| Pin::new(&mut &*by_ref).poll_flush(cx).map(|r| r.map(|_| 0))),
        11 => Box::new(move |cx| Pin::new(&mut &*by_ref).poll_close(cx).map(|r| r.map(|_| 0))),
        12 => fut(async move { by_ref.read_with(|s| s.rd(&mut *bufp)).await }),
        13 => fut(async move { (*m).read_with_mut(|s| s.read(&mut *bufp)).await }),
        14 => fut(async move { by_ref.write_with(|s| s.wr(&*bufp)).await }),
        _ => fut(async move { (*m).write_with_mut(|s| s.write(&*bufp)).await }),
    } } };
    let mut step = make();
    let is_fut = form >= 12;
    let ws = [W::new("w"), W::new("v")];
    let mut last: Option<Call> = None;
    let mut rounds = 0;
    let mut other = false;
    // whether the reactor goes around between the poll and the event (an event of the round that was
    // under way when the wait began does not count)
    let around = rt::choose(2) == 1;
    let mut waiting: Option<u64> = None; // when the current wait began
    let mut idle = 0; // polls in a row, each after an event, that did not carry out the operation
    loop {
        rounds += 1;
        check!(rounds < 14, "the operation is not carried out again although the handle is ready");
        let w = ws[*polled.get() as usize % 2];
        let n0 = mk.calls.get().len();
        let seq = rt::evseq();
        let n = w.n();
        let nf = rt::nfaults();
        if faults { rt::fault_set(rt::FC_MOD, &[libc::ENOMEM, libc::EPERM]) }
        let r = poll_fn_with(w, |cx| step(cx));
        if faults { rt::fault_clear() }
        *polled.get() += 1;
        let calls = &mk.calls.get()[n0..];
        check!(n0 > 0 || !calls.is_empty(), "the first poll does not carry out the operation");
        // it is repeated within one poll only if the wait that had begun before is over
        check!(calls.len() <= 2, "{} attempts in one poll", calls.len());
        check!(calls.len() < 2 || waiting.map(|s| rt::reported(fd, dir) > s).unwrap_or(false), "repeated at once although the handle has not become ready since it would have blocked");
        if waiting.is_none() || calls.len() > 1 { waiting = Some(seq) }
        for c in calls {
            check!(c.op == op, "operation {} carried out instead of {op}", c.op);
            check!(c.len == len && c.nbuf == nbuf && (c.ptr == bp), "not the caller's buffer ({} of {len} bytes, {} of {nbuf} buffers)", c.len, c.nbuf);
            last = Some(*c);
        }
        let _ = last;
        let ans = mk.ans.get().last().copied();
        if rt::nfaults() > nf {
            // no wait could be set up: the operation returns that error, nothing of it stays behind, and it can be started again
            check!(matches!(&r, Poll::Ready(Err(e)) if e.raw_os_error() == Some(rt::last_fault())), "result {r:?} although the wait could not be armed (errno {})", rt::last_fault());
            check!(matches!(ans, Some(Ans::Block | Ans::BlockOs)), "waits although the operation answered {ans:?}");
            waiting = None;
            if is_fut { drop(step); rt::settle(); for w in ws { check!(w.refs() == 0, "waker still held after the operation failed") } step = make(); idle = 0 }
            if rt::choose(2) == 1 && !ready(fd, dir) { if dir == 0 { let _ = (&peer).write(b"x").unwrap(); } else { rt::kop(); drain(fd2); } rt::settle() }
            continue;
        }
        match r {
            Poll::Ready(r) => {
                let ok = match (ans, &r) {
                    (Some(Ans::Done(n)), Ok(m)) => *m == if op == 4 { 0 } else { n.min(len) },
                    (Some(Ans::Kind(k)), Err(e)) => e.kind() == k && e.to_string() == "mine",
                    (Some(Ans::Os(n)), Err(e)) => e.raw_os_error() == Some(n),
                    _ => false,
                };
                check!(ok, "result {r:?} although the operation answered {ans:?}");
                // exactly what was read is in the buffer
                let n = match (&r, op) { (Ok(n), 0 | 1) => *n, _ => 0 };
                let all: Vec<u8> = unsafe { [*bufp, *buf2p].concat() };
                let got = all.iter().take_while(|&&x| x == 0xa5).count();
                check!(got == n.min(16) && all[got..].iter().all(|&x| x == 7), "the buffer does not hold what was read");
                rt::note(rounds * 16 + ans.map(|a| matches!(a, Ans::Done(_)) as u64).unwrap_or(9));
                if is_fut { drop(step); rt::settle(); for w in ws { check!(w.refs() == 0, "waker still held after completion") } }
                return;
            }
            Poll::Pending => {
                check!(matches!(ans, Some(Ans::Block | Ans::BlockOs)), "pending although the operation answered {ans:?}");
                // the wait is armed in the right direction
                if !other { let e = rt::reg_events(fd); check!(e & (if dir == 0 { libc::EPOLLIN } else { libc::EPOLLOUT }) as u32 != 0 || w.n() > 0, "not waiting for the right direction (interest {e:x})"); }
                idle = if calls.is_empty() { idle + 1 } else { 0 };
                check!(idle < 4, "woken again and again, but the operation is not repeated");
                if around { drop_timer(); rt::settle() }
            }
        }
        match rt::choose(4) {
            // the handle becomes ready
            0 => { if !ready(fd, dir) { if dir == 0 { let _ = (&peer).write(b"x").unwrap(); } else { rt::kop(); drain(fd2); } } rt::settle(); check!(w.n() > n, "not woken although the handle is ready") }
            // polled without cause, or by another task
            1 => { if rounds > 2 { rt::end() } }
            // only the other direction becomes ready
            2 => {
                rt::settle();
                let n = w.n();
                if !other { other = true; if dir == 1 { let _ = (&peer).write(b"x").unwrap(); } else { rt::kop(); drain(fd2); } }
                rt::settle();
                if !ready(fd, dir) { check!(w.n() == n, "woken by the other direction") }
                if rounds > 3 { rt::end() }
            }
            // cancelled
            _ => {
                let n = mk.calls.get().len();
                drop(step);
                if is_fut { rt::settle(); for w in ws { check!(w.refs() == 0, "waker still held after cancelling") } }
                if dir == 0 { let _ = (&peer).write(b"x"); } else { rt::kop(); drain(fd2); }
                rt::settle();
                check!(mk.calls.get().len() == n, "the operation was carried out after it was cancelled");
                return;
            }
        }
    }
}
/// Makes the reactor go around.
fn drop_timer() { let mut t = Timer::after(std::time::Duration::from_secs(3600)); let w = W::new("around"); let _ = poll_fn_with(w, |cx| Pin::new(&mut t).poll(cx)); }
pub fn adapt_poll() { boot(); rt::time_points(false); let f = rt::choose(6); adapter(f, depth(2, 3), false) }
pub fn adapt_poll_ref() { boot(); rt::time_points(false); let f = 6 + rt::choose(6); adapter(f, depth(2, 3), false) }
pub fn adapt_with() { boot(); rt::time_points(false); let f = 12 + rt::choose(4); adapter(f, depth(2, 3), false) }
pub fn fault_adapt() { boot(); rt::time_points(false); let f = rt::choose(16); adapter(f, depth(2, 3), true) }

// ------------------------------------------------------------------ real sockets

#[derive(Debug, PartialEq, Clone)]
enum Out { N(usize), Bytes(Vec<u8>), From(Vec<u8>, String), Conn(bool), Unit }
type Fut = Pin<Box<dyn Future<Output = io::Result<Out>>>>;
/// How to start the operation, what makes it possible, and what it must give.
struct Real { mk: Box<dyn Fn() -> Fut>, event: Box<dyn Fn()>, fd: i32, dir: usize, want: Out, after: Box<dyn Fn()> }
fn tcp_pair() -> (TcpStream, TcpStream) {
    let l = TcpListener::bind(lo()).unwrap();
    let a = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (b, _) = l.accept().unwrap();
    (a, b)
}
fn abstract_name(n: &str) -> std::os::unix::net::SocketAddr { use std::os::linux::net::SocketAddrExt; std::os::unix::net::SocketAddr::from_abstract_name(format!("mc-{}-{n}", std::process::id())).unwrap() }
fn scratch(n: &str) -> std::path::PathBuf { let p = std::env::temp_dir().join(format!("mc-{}-{n}", std::process::id())); let _ = std::fs::remove_file(&p); p }
const DATA: &[u8] = b"abcde";
fn small(fd: i32) { let n: i32 = 4096; unsafe { for o in [libc::SO_SNDBUF, libc::SO_RCVBUF] { libc::setsockopt(fd, libc::SOL_SOCKET, o, &n as *const _ as *const _, 4); } } }
/// Fills a socket until it is not writable.
fn stuff(fd: i32) { small(fd); let z = [9u8; 512]; unsafe { for _ in 0..100_000 { if raw(libc::SYS_sendto, [fd as i64, z.as_ptr() as i64, 512, libc::MSG_DONTWAIT as i64, 0, 0]) < 0 { break } } for _ in 0..100_000 { if raw(libc::SYS_sendto, [fd as i64, z.as_ptr() as i64, 1, libc::MSG_DONTWAIT as i64, 0, 0]) < 0 { break } } } rt::kdirty() }

fn nothing() -> Box<dyn Fn()> { Box::new(|| {}) }
fn expect_read(fd: i32, what: &'static [u8]) -> Box<dyn Fn()> {
    // what was only peeked at, or must not have been consumed, is still there
    Box::new(move || { let mut b = [0u8; 64]; let n = unsafe { raw(libc::SYS_recvfrom, [fd as i64, b.as_mut_ptr() as i64, 64, libc::MSG_DONTWAIT as i64, 0, 0]) }; check!(if what.is_empty() { n == -(libc::EAGAIN as i64) } else { n == what.len() as i64 && &b[..n as usize] == what }, "what remains to be read: {n}") })
}
const REALS: usize = 23;
fn real(k: usize) -> Real {
    macro_rules! f { ($e:expr) => { Box::new(move || -> Fut { Box::pin(async move { $e }) }) } }
    match k {
        // streams
        0 | 1 | 2 => {
            let (a, b) = UnixStream::pair().unwrap(); let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b);
            let mk: Box<dyn Fn() -> Fut> = match k {
                0 => f!({ let mut v = vec![0; 16]; let n = futures_lite::AsyncReadExt::read(&mut &*a, &mut v).await?; v.truncate(n); Ok(Out::Bytes(v)) }),
                1 => f!({ let mut v = vec![0; 16]; let n = a.read_with(|mut s| s.read(&mut v)).await?; v.truncate(n); Ok(Out::Bytes(v)) }),
                _ => f!({ let (mut v, mut u) = (vec![0; 2], vec![0; 14]); let n = futures_lite::AsyncReadExt::read_vectored(&mut &*a, &mut [IoSliceMut::new(&mut v), IoSliceMut::new(&mut u)]).await?; v.extend(u); v.truncate(n); Ok(Out::Bytes(v)) }),
            };
            Real { mk, event: Box::new(move || { let _ = (&*b).write(DATA).unwrap(); }), fd, dir: 0, want: Out::Bytes(DATA.to_vec()), after: expect_read(fd, b"") }
        }
        3 | 4 => {
            let (a, b) = tcp_pair(); let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b);
            let mk: Box<dyn Fn() -> Fut> = if k == 3 { f!({ let mut v = vec![0; 16]; let n = a.peek(&mut v).await?; v.truncate(n); Ok(Out::Bytes(v)) }) } else { f!({ let mut v = vec![0; 16]; let n = futures_lite::AsyncReadExt::read(&mut &*a, &mut v).await?; v.truncate(n); Ok(Out::Bytes(v)) }) };
            Real { mk, event: Box::new(move || { let _ = (&*b).write(DATA).unwrap(); }), fd, dir: 0, want: Out::Bytes(DATA.to_vec()), after: expect_read(fd, if k == 3 { DATA } else { b"" }) }
        }
        5 | 6 => {
            let (a, b) = UnixStream::pair().unwrap(); stuff(a.as_raw_fd()); let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b); b.set_nonblocking(true).unwrap();
            let bfd = b.as_raw_fd();
            let mk: Box<dyn Fn() -> Fut> = if k == 5 { f!({ let n = futures_lite::AsyncWriteExt::write(&mut &*a, DATA).await?; Ok(Out::N(n)) }) } else { f!({ let n = a.write_with(|mut s| s.write(DATA)).await?; Ok(Out::N(n)) }) };
            Real { mk, event: Box::new(move || { rt::kop(); drain(bfd) }), fd, dir: 1, want: Out::N(5), after: expect_read(bfd, DATA) }
        }
        // listeners
        7 | 8 => {
            let l = Async::<TcpListener>::bind(lo()).unwrap(); let addr = l.get_ref().local_addr().unwrap(); let l: &'static _ = leak(l); let fd = l.as_raw_fd();
            let me: &'static Sh<Option<TcpStream>> = leak(Sh::new(None));
            let same = move |s: &Async<TcpStream>| { check!(fd_nonblocking(s.as_raw_fd()) && rt::registered(s.as_raw_fd()), "accepted connection blocking or not registered"); me.get().as_ref().map(|m| m.local_addr().unwrap() == s.get_ref().peer_addr().unwrap()).unwrap_or(false) };
            let mk: Box<dyn Fn() -> Fut> = if k == 7 { f!({ let (s, from) = l.accept().await?; let ok = same(&s) && Some(from) == me.get().as_ref().map(|m| m.local_addr().unwrap()); Ok(Out::Conn(ok)) }) }
                else { f!({ let inc = l.incoming(); futures_lite::pin!(inc); let s = inc.next().await.unwrap_or_else(|| rt::fail("the stream of connections ended"))?; let ok = same(&s); Ok(Out::Conn(ok)) }) };
            Real { mk, event: Box::new(move || { *me.get() = Some(TcpStream::connect(addr).unwrap()) }), fd, dir: 0, want: Out::Conn(true), after: nothing() }
        }
        9 | 10 => {
            let addr = abstract_name("l");
            let l = UnixListener::bind_addr(&addr).unwrap(); let l: &'static _ = leak(Async::new(l).unwrap()); let fd = l.as_raw_fd();
            let me: &'static Sh<Option<UnixStream>> = leak(Sh::new(None));
            let same = move |s: &Async<UnixStream>| { check!(fd_nonblocking(s.as_raw_fd()) && rt::registered(s.as_raw_fd()), "accepted connection blocking or not registered"); let _ = me.get().as_ref().map(|mut m| m.write(b"id")); let mut b = [0u8; 4]; s.get_ref().read(&mut b).map(|n| &b[..n] == b"id").unwrap_or(false) };
            let mk: Box<dyn Fn() -> Fut> = if k == 9 { f!({ let (s, from) = l.accept().await?; let ok = same(&s) && from.is_unnamed(); Ok(Out::Conn(ok)) }) }
                else { f!({ let inc = l.incoming(); futures_lite::pin!(inc); let s = inc.next().await.unwrap_or_else(|| rt::fail("the stream of connections ended"))?; let ok = same(&s); Ok(Out::Conn(ok)) }) };
            Real { mk, event: Box::new(move || { *me.get() = Some(UnixStream::connect_addr(&addr).unwrap()) }), fd, dir: 0, want: Out::Conn(true), after: nothing() }
        }
        // datagrams over UDP
        11..=14 => {
            let a = UdpSocket::bind(lo()).unwrap(); let b = UdpSocket::bind(lo()).unwrap();
            a.connect(b.local_addr().unwrap()).unwrap(); b.connect(a.local_addr().unwrap()).unwrap();
            let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b); let from = b.local_addr().unwrap().to_string();
            let mk: Box<dyn Fn() -> Fut> = match k {
                11 => f!({ let mut v = vec![0; 16]; let n = a.recv(&mut v).await?; v.truncate(n); Ok(Out::Bytes(v)) }),
                12 => f!({ let mut v = vec![0; 16]; let n = a.peek(&mut v).await?; v.truncate(n); Ok(Out::Bytes(v)) }),
                13 => f!({ let mut v = vec![0; 16]; let (n, s) = a.recv_from(&mut v).await?; v.truncate(n); Ok(Out::From(v, s.to_string())) }),
                _ => f!({ let mut v = vec![0; 16]; let (n, s) = a.peek_from(&mut v).await?; v.truncate(n); Ok(Out::From(v, s.to_string())) }),
            };
            let want = if k < 13 { Out::Bytes(DATA.to_vec()) } else { Out::From(DATA.to_vec(), from) };
            Real { mk, event: Box::new(move || { b.send(DATA).unwrap(); }), fd, dir: 0, want, after: expect_read(fd, if k == 12 || k == 14 { DATA } else { b"" }) }
        }
        15 | 16 => {
            let a = UdpSocket::bind(lo()).unwrap(); let b = UdpSocket::bind(lo()).unwrap(); let to = b.local_addr().unwrap();
            if k == 15 { a.connect(to).unwrap(); }
            let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b);
            let mk: Box<dyn Fn() -> Fut> = if k == 15 { f!({ Ok(Out::N(a.send(DATA).await?)) }) } else { f!({ Ok(Out::N(a.send_to(DATA, to).await?)) }) };
            Real { mk, event: nothing(), fd, dir: 1, want: Out::N(5), after: expect_read(b.as_raw_fd(), DATA) }
        }
        // datagrams over Unix sockets
        17 | 18 => {
            let (a, b) = UnixDatagram::pair().unwrap(); let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b);
            let mk: Box<dyn Fn() -> Fut> = if k == 17 { f!({ let mut v = vec![0; 16]; let n = a.recv(&mut v).await?; v.truncate(n); Ok(Out::Bytes(v)) }) }
                else { f!({ let mut v = vec![0; 16]; let (n, s) = a.recv_from(&mut v).await?; v.truncate(n); Ok(Out::From(v, format!("{}", s.is_unnamed()))) }) };
            let want = if k == 17 { Out::Bytes(DATA.to_vec()) } else { Out::From(DATA.to_vec(), "true".into()) };
            Real { mk, event: Box::new(move || { b.send(DATA).unwrap(); }), fd, dir: 0, want, after: expect_read(fd, b"") }
        }
        // a connection which the other side has broken off before it is accepted
        21 | 22 => {
            let l = Async::<TcpListener>::bind(lo()).unwrap(); let addr = l.get_ref().local_addr().unwrap(); let l: &'static _ = leak(l); let fd = l.as_raw_fd();
            let me: &'static Sh<Option<std::net::SocketAddr>> = leak(Sh::new(None));
            let mk: Box<dyn Fn() -> Fut> = if k == 21 { f!({ let (s, from) = l.accept().await?; Ok(Out::Conn(fd_nonblocking(s.as_raw_fd()) && rt::registered(s.as_raw_fd()) && Some(from) == *me.get())) }) }
                else { f!({ let inc = l.incoming(); futures_lite::pin!(inc); let s = inc.next().await.unwrap_or_else(|| rt::fail("the stream of connections ended"))?; Ok(Out::Conn(fd_nonblocking(s.as_raw_fd()) && rt::registered(s.as_raw_fd()))) }) };
            let event = move || {
                let c = TcpStream::connect(addr).unwrap(); *me.get() = Some(c.local_addr().unwrap());
                let on = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe { libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &on as *const _ as *const _, std::mem::size_of_val(&on) as u32); }
                drop(c);
            };
            Real { mk, event: Box::new(event), fd, dir: 0, want: Out::Conn(true), after: nothing() }
        }
        19 => {
            let (a, b) = UnixDatagram::pair().unwrap(); stuff(a.as_raw_fd()); let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b); b.set_nonblocking(true).unwrap();
            let bfd = b.as_raw_fd();
            Real { mk: f!({ Ok(Out::N(a.send(DATA).await?)) }), event: Box::new(move || { rt::kop(); drain(bfd) }), fd, dir: 1, want: Out::N(5), after: expect_read(bfd, DATA) }
        }
        _ => {
            let p = scratch("dg"); let b = UnixDatagram::bind(&p).unwrap(); let a = UnixDatagram::unbound().unwrap();
            let a: &'static _ = leak(Async::new(a).unwrap()); let fd = a.as_raw_fd(); let b = leak(b); b.set_nonblocking(true).unwrap();
            let q: &'static std::path::PathBuf = leak(p);
            Real { mk: f!({ Ok(Out::N(a.send_to(DATA, q).await?)) }), event: nothing(), fd, dir: 1, want: Out::N(5), after: Box::new({ let e = expect_read(b.as_raw_fd(), DATA); move || { e(); let _ = std::fs::remove_file(q); } }) }
        }
    }
}
/// Each operation: possible at once or after a wait, cancelled and started again, with errors of the OS in between.
pub fn adapt_real() { operation(false) }
/// The same, and arming the wait may fail.
pub fn fault_real() { operation(true) }
fn operation(arming: bool) {
    boot(); rt::time_points(false); rt::tcp(2);
    let k = rt::choose(REALS);
    let r = real(k);
    let kk = rt::choose(3); // possible at once; after waiting; cancelled while waiting and started again
    let w = W::new("w");
    let w2 = W::new("w2");
    if k == 20 { rt::log("datagram to a path") }
    let mut possible = false;
    let slot = matches!(k, 0 | 2 | 4 | 5); // the handle itself keeps the waker of a poll method
    if kk == 0 { (r.event)(); possible = true; if !ready(r.fd, r.dir) { rt::settle() } }
    if !arming { rt::fault_set(if (7..=10).contains(&k) || k > 20 { rt::FC_ACCEPT } else { rt::FC_IO }, &[libc::EAGAIN, libc::ENOBUFS, libc::ECONNABORTED]) }
    let mut f = (r.mk)();
    let mut errors = 0;
    let mut rounds = 0;
    let mut cancelled = false;
    let mut wk = w;
    loop {
        rounds += 1;
        check!(rounds < 16, "the operation does not complete although it is possible");
        let nf = rt::nfaults();
        if arming { rt::fault_set(rt::FC_MOD, &[libc::ENOMEM]) }
        let p = poll(f.as_mut(), wk);
        if arming { rt::fault_clear() }
        let faulted = rt::nfaults() > nf;
        match p {
            Poll::Ready(Ok(o)) => { check!(!faulted || (!arming && rt::last_fault() == libc::EAGAIN), "an error of the OS was swallowed"); check!(o == r.want, "got {o:?} instead of {:?}", r.want); break }
            Poll::Ready(Err(e)) => {
                check!(faulted && e.raw_os_error() == Some(rt::last_fault()) && rt::last_fault() != libc::EAGAIN, "failed with {e:?}");
                errors += 1;
                drop(f); rt::settle();
                check!(slot || wk.refs() == 0, "waker held after the operation failed");
                f = (r.mk)(); // nothing was lost
            }
            Poll::Pending => {
                check!(!arming || !faulted, "waits although the wait could not be armed (errno {})", rt::last_fault());
                check!(!ready(r.fd, r.dir) || faulted || wk.n() > 0 || rounds > 1, "waits although it is possible");
                if kk == 2 && !cancelled {
                    cancelled = true;
                    if rt::choose(2) == 1 && !possible { rt::fault_clear(); (r.event)(); possible = true; rt::settle(); }
                    drop(f);
                    rt::settle();
                    check!(slot || w.refs() == 0, "waker held after cancelling");
                    f = (r.mk)(); wk = w2; continue;
                }
                // nothing wakes it before it can go on
                if !possible && !faulted && kk != 2 { rt::settle(); check!(ready(r.fd, r.dir) || wk.n() == 0, "woken although the operation is not possible") }
                let n = wk.n();
                if !possible { let was = ready(r.fd, r.dir); rt::fault_clear(); (r.event)(); possible = true; let _ = was; }
                rt::settle();
                if ready(r.fd, r.dir) { check!(wk.n() > n || n > 0, "not woken although the handle is ready") } else { check!(wk.n() == 0 || rounds > 1, "woken without cause") }
            }
        }
    }
    rt::fault_clear();
    (r.after)();
    drop(f);
    rt::settle();
    check!(slot || (w.refs() == 0 && w2.refs() == 0), "waker held after completion");
    check!(rt::stat(9) == 0 && rt::stat(2) == 0, "descriptor closed twice or while registered");
    rt::note(rounds * 4 + errors);
}
pub fn unused() { let _ = (Cell::new(0), Out::Unit); fn s<T: Stream>(_: T) {} let _ = s::<futures_lite::stream::Empty<()>>; }
