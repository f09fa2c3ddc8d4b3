//! Data transfer over pairs of handles (C17).
use crate::rt;
use crate::util::*;
use async_io::Async;
use futures_lite::{future, AsyncReadExt, AsyncWriteExt};
use std::future::Future;
use std::io::{self, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::AsRawFd;
use std::os::unix::net::{UnixDatagram, UnixStream};
use std::sync::Arc;

fn small(fd: i32) { let n: i32 = 2048; unsafe { for o in [libc::SO_SNDBUF, libc::SO_RCVBUF] { libc::setsockopt(fd, libc::SOL_SOCKET, o, &n as *const _ as *const _, 4); } } }
fn byte(seed: u32, i: usize) -> u8 { ((i as u32).wrapping_mul(131).wrapping_add(seed * 17) >> 3) as u8 ^ (i as u8) }
trait Shut { fn shut(&self); }
impl Shut for UnixStream { fn shut(&self) { rt::kop(); let _ = self.shutdown(Shutdown::Write); rt::kdirty() } }
impl Shut for TcpStream { fn shut(&self) { rt::kop(); let _ = self.shutdown(Shutdown::Write); rt::kdirty() } }

fn good<T>(r: io::Result<T>, what: &str) -> T { r.unwrap_or_else(|e| rt::fail(&format!("{what}: {e}"))) }
async fn send_all<T>(h: &Async<T>, seed: u32, total: usize, chunk: usize, how: usize) where for<'a> &'a T: Write + Read, T: Shut {
    let data: Vec<u8> = (0..total).map(|i| byte(seed, i)).collect();
    let mut i = 0;
    let mut k = 0;
    while i < total {
        let e = (i + chunk).min(total);
        k += 1; check!(k < 200, "no progress");
        let mut hh = h;
        let n = match how {
            0 => good(hh.write(&data[i..e]).await, "write"),
            1 => good(h.write_with(|mut s| s.write(&data[i..e])).await, "write_with"),
            _ => { let m = (i + e) / 2; good(hh.write_vectored(&[io::IoSlice::new(&data[i..m]), io::IoSlice::new(&data[m..e])]).await, "write_vectored") }
        };
        check!(n >= 1 && n <= e - i, "wrote {n} of {} bytes", e - i);
        i += n;
    }
    good((&mut &*h).flush().await, "flush");
    h.get_ref().shut();
}
async fn recv_all<T>(h: &Async<T>, seed: u32, total: usize, bufsize: usize, how: usize) where for<'a> &'a T: Write + Read {
    let mut i = 0;
    let mut buf = vec![0u8; bufsize];
    let mut k = 0;
    loop {
        k += 1; check!(k < 400, "no progress");
        let mut hh = h;
        let n = match how {
            0 => good(hh.read(&mut buf).await, "read"),
            1 => good(h.read_with(|mut s| s.read(&mut buf)).await, "read_with"),
            _ => { let (x, y) = buf.split_at_mut(bufsize / 2); good(hh.read_vectored(&mut [io::IoSliceMut::new(x), io::IoSliceMut::new(y)]).await, "read_vectored") }
        };
        check!(n <= bufsize, "read {n} bytes into {bufsize}");
        if n == 0 { break }
        for (j, b) in buf[..n].iter().enumerate() { check!(i + j < total, "more bytes than were written"); check!(*b == byte(seed, i + j), "byte {} arrives wrong", i + j) }
        i += n;
    }
    check!(i == total, "end of stream after {i} of {total} bytes");
    check!(good((&mut &*h).read(&mut buf).await, "read") == 0, "data after the end of stream");
}
/// How a future is run.
fn run(f: impl Future<Output = ()>, driver: usize) { if driver == 0 { async_io::block_on(f) } else { future::block_on(f) } }

fn one_way<T>(a: Async<T>, b: Async<T>, total: usize, chunk: usize, bufsize: usize, c: [usize; 4]) where for<'a> &'a T: Write + Read, T: Shut + Send + Sync + 'static {
    let [how, dw, dr, split] = c;
    if split == 1 {
        run(async { future::zip(send_all(&a, 1, total, chunk, how), recv_all(&b, 1, total, bufsize, how)).await; }, dr);
    } else {
        let t = spawn(move || { run(send_all(&a, 1, total, chunk, how), dw); a });
        run(recv_all(&b, 1, total, bufsize, how), dr);
        drop(t.join().unwrap());
    }
    end();
}
fn end() {
    check!(rt::stat(1) == 0, "a thread blocked in I/O");
    check!(rt::stat(2) == 0 && rt::stat(9) == 0, "descriptor closed while registered, or twice");
}
fn upair() -> (Async<UnixStream>, Async<UnixStream>) { let (a, b) = UnixStream::pair().unwrap(); small(a.as_raw_fd()); small(b.as_raw_fd()); (Async::new(a).unwrap(), Async::new(b).unwrap()) }
fn horizon() { rt::horizon(rt::now() + 20_000 * MS) }
pub fn stream_one_way() {
    boot(); rt::time_points(false); horizon();
    let c = [rt::choose(3), rt::choose(2), rt::choose(2), rt::choose(2)];
    let (a, b) = upair();
    let bufsize = [700, 4000][rt::choose(2)];
    one_way(a, b, 7000, 2500, bufsize, c);
}
/// With spurious would-block results of the OS.
pub fn stream_again() {
    boot(); rt::time_points(false); horizon();
    let c = [rt::choose(3), rt::choose(2), rt::choose(2), rt::choose(2)];
    let (a, b) = upair();
    rt::fault_set(rt::FC_IO, &[libc::EAGAIN]);
    one_way(a, b, 4000, 1500, 1000, c);
}
/// Both directions of both handles at once, by reference from several tasks or threads.
pub fn stream_duplex() {
    boot(); rt::time_points(false); horizon();
    let (a, b) = upair();
    let (a, b) = (Arc::new(a), Arc::new(b));
    let d = rt::choose(2);
    let how = rt::choose(2);
    let (a2, b2) = (a.clone(), b.clone());
    match rt::choose(3) {
        // two threads, each reads and writes
        0 => {
            let t = spawn(move || run(async { future::zip(send_all(&a, 1, 5000, 2500, how), recv_all(&a, 2, 4000, 1500, how)).await; }, d));
            run(async { future::zip(recv_all(&b, 1, 5000, 1800, how), send_all(&b, 2, 4000, 2000, how)).await; }, 0);
            t.join().unwrap();
        }
        // every task has its own thread
        1 => {
            let hs = [spawn(move || run(send_all(&a, 1, 4000, 2500, how), d)), spawn(move || run(recv_all(&a2, 2, 4000, 2500, how), 0)), spawn(move || run(send_all(&b2, 2, 4000, 2500, how), 1))];
            run(recv_all(&b, 1, 4000, 2500, how), d);
            for h in hs { h.join().unwrap() }
        }
        // one thread runs everything
        _ => {
            run(async { future::zip(future::zip(send_all(&a, 1, 5000, 2500, how), recv_all(&a2, 2, 4000, 1500, how)), future::zip(recv_all(&b, 1, 5000, 1800, how), send_all(&b2, 2, 4000, 2000, how))).await; }, d);
        }
    }
    end();
}
/// A writer that gives up in the middle: what was accepted arrives, nothing else.
pub fn stream_cancel() {
    boot(); rt::time_points(false); horizon();
    let (a, b) = upair();
    let k = 1 + rt::choose(3);
    let d = rt::choose(2);
    let data: Vec<u8> = (0..20000).map(|i| byte(3, i)).collect();
    let t = spawn(move || {
        let mut sent = 0;
        for _ in 0..8 {
            // polls a write a few times, then drops it
            let mut f = Box::pin((&a).write_with(|mut s| s.write(&data[sent..sent + 900])));
            let w = W::new("w");
            let mut r = None;
            for _ in 0..k { if let std::task::Poll::Ready(n) = poll(f.as_mut(), w) { r = Some(good(n, "write")); break } rt::yield_() }
            drop(f);
            if let Some(n) = r { sent += n }
        }
        a.get_ref().shut();
        (a, sent)
    });
    let got = Sh::new(0usize);
    run(async {
        let mut buf = [0u8; 1100];
        loop {
            let n = good((&mut &b).read(&mut buf).await, "read");
            if n == 0 { break }
            for (j, x) in buf[..n].iter().enumerate() { check!(*x == byte(3, *got.get() + j), "byte {} arrives wrong", *got.get() + j) }
            *got.get() += n;
        }
    }, d);
    let (_a, sent) = t.join().unwrap();
    check!(*got.get() == sent, "{} bytes arrive, {sent} were accepted", *got.get());
    end();
}
/// TCP connections made by the library itself.
pub fn stream_tcp() {
    boot(); rt::time_points(false); rt::tcp(3); horizon();
    let l = Async::<TcpListener>::bind(lo()).unwrap();
    let addr = l.get_ref().local_addr().unwrap();
    let inc = rt::choose(2) == 1;
    let d = rt::choose(2);
    let t = spawn(move || run(async {
        let s = good(Async::<TcpStream>::connect(addr).await, "connect");
        small(s.as_raw_fd());
        future::zip(send_all(&s, 1, 3000, 1000, 0), recv_all(&s, 2, 2000, 600, 1)).await;
    }, d));
    run(async {
        let s = if inc { let i = l.incoming(); futures_lite::pin!(i); use futures_lite::StreamExt; good(i.next().await.unwrap(), "incoming") } else { good(l.accept().await, "accept").0 };
        let mut b = [0u8; 10];
        let n = good(s.peek(&mut b).await, "peek");
        check!(n >= 1 && n <= 10, "peek gives {n} bytes");
        for i in 0..n { check!(b[i] == byte(1, i), "peek gives wrong data") }
        let m = good(s.peek(&mut b).await, "peek");
        check!(m >= n && b[0] == byte(1, 0), "peeking consumes");
        future::zip(recv_all(&s, 1, 3000, 800, 0), send_all(&s, 2, 2000, 700, 2)).await;
    }, 0);
    t.join().unwrap();
    end();
}

// ------------------------------------------------------------------ datagrams
fn msg(i: usize) -> Vec<u8> { let n = [5usize, 0, 300, 1, 1200, 64, 2, 900][i % 8]; (0..n).map(|j| byte(i as u32, j)).collect() }
pub fn dgram_unix() {
    boot(); rt::time_points(false); horizon();
    let (a, b) = UnixDatagram::pair().unwrap();
    small(a.as_raw_fd()); small(b.as_raw_fd());
    let (a, b) = (Async::new(a).unwrap(), Async::new(b).unwrap());
    let (dw, dr) = (rt::choose(2), rt::choose(2));
    let form = rt::choose(3);
    let n = 8;
    let send = move |a: Async<UnixDatagram>| async move { for i in 0..n { let m = msg(i); let k = good(a.send(&m).await, "send"); check!(k == m.len(), "sent {k} of {} bytes", m.len()) } a };
    let recv = async {
        let mut buf = [0u8; 1500];
        for i in 0..n {
            let m = msg(i);
            let k = match form { 0 => good(b.recv(&mut buf).await, "recv"), 1 => good(b.recv_from(&mut buf).await, "recv_from").0, _ => good(b.read_with(|s| s.recv(&mut buf)).await, "read_with") };
            check!(buf[..k] == m[..], "message {i} arrives as {k} bytes instead of {}", m.len());
        }
    };
    if rt::choose(2) == 0 { let t = spawn(move || { let mut r = None; run(async { r = Some(send(a).await) }, dw); r }); run(recv, dr); drop(t.join().unwrap()); }
    else { run(async { future::zip(send(a), recv).await; }, dr) }
    end();
}
pub fn dgram_udp() {
    boot(); rt::time_points(false); rt::tcp(3); horizon();
    let a = Async::<UdpSocket>::bind(lo()).unwrap();
    let b = Async::<UdpSocket>::bind(lo()).unwrap();
    let (aa, ba) = (a.get_ref().local_addr().unwrap(), b.get_ref().local_addr().unwrap());
    let conn = rt::choose(2) == 1;
    if conn { a.get_ref().connect(ba).unwrap(); b.get_ref().connect(aa).unwrap(); }
    let d = rt::choose(2);
    let n = 5;
    let t = spawn(move || { run(async { for i in 0..n { let m = msg(i); let k = if conn { good(a.send(&m).await, "send") } else { good(a.send_to(&m, ba).await, "send_to") }; check!(k == m.len(), "sent {k}") } }, d); a });
    run(async {
        let mut buf = [0u8; 1500];
        for i in 0..n {
            let m = msg(i);
            // peeked at first: the same message, not consumed
            let p = if conn { good(b.peek(&mut buf).await, "peek") } else { let (p, f) = good(b.peek_from(&mut buf).await, "peek_from"); check!(f == aa, "message from {f}"); p };
            check!(buf[..p] == m[..], "peeking at message {i} gives {p} bytes");
            buf.fill(0);
            let k = if conn { good(b.recv(&mut buf).await, "recv") } else { let (k, f) = good(b.recv_from(&mut buf).await, "recv_from"); check!(f == aa, "message from {f}"); k };
            check!(buf[..k] == m[..], "message {i} arrives as {k} bytes instead of {}", m.len());
        }
    }, 0);
    drop(t.join().unwrap());
    end();
}

// ------------------------------------------------------------------ handles shared in one direction
type Task = std::pin::Pin<Box<dyn Future<Output = ()>>>;
/// Runs two tasks made by `mk`, on one or two threads.
fn two<M: Fn(usize) -> Task + Send + 'static>(m: [M; 2], threads: bool, d: usize) {
    let [f, g] = m;
    if threads { let t = spawn(move || run(f(0), d)); run(g(1), 0); t.join().unwrap() } else { run(async { future::zip(f(0), g(1)).await; }, d) }
}
/// Units that are sent: `S` senders, `N` units of each.
struct Tally { n: usize, seen: Vec<Option<usize>> }
impl Tally {
    fn new(s: usize, n: usize) -> &'static Sh<Tally> { leak(Sh::new(Tally { n, seen: vec![None; s * n] })) }
    /// Receiver `i` gets unit `x`.
    fn take(&mut self, i: usize, x: usize) {
        check!(x < self.seen.len(), "unit {x} was never sent");
        check!(self.seen[x].is_none(), "unit {x} arrives twice");
        for y in x + 1..(x / self.n + 1) * self.n { check!(self.seen[y] != Some(i), "unit {x} after {y}") }
        self.seen[x] = Some(i);
    }
    fn all(&self) { for (i, s) in self.seen.iter().enumerate() { check!(s.is_some(), "unit {i} is lost") } }
}
/// Two tasks receive from one datagram socket, two others send on another one.
pub fn share_dgram() {
    boot(); rt::time_points(false); horizon();
    const N: usize = 2;
    let t = Tally::new(2, N);
    let form = rt::choose(5);
    let (threads, d) = (rt::choose(2) == 1, rt::choose(2));
    macro_rules! go { ($t:ty, $a:expr, $b:expr, $recv:expr) => {{
        let a = $a;
        let b = Arc::new($b);
        let rx = |b: Arc<Async<$t>>| move |i: usize| -> Task { let b = b.clone(); Box::pin(async move { loop {
            let mut m = [9u8; 3];
            let k: usize = $recv(&b, &mut m).await;
            check!(k == 2 && m[0] == m[1] && m[2] == 9, "arrives as {k} bytes {m:?}");
            if m[0] == 255 { break }
            t.get().take(i, m[0] as usize);
        } }) };
        let s = spawn(move || { run(async {
            let s = |i: usize| { let a = &a; async move { for j in 0..N { let j = (i * N + j) as u8; check!(good(a.send(&[j, j]).await, "send") == 2, "length") } } };
            future::zip(s(0), s(1)).await;
            // the receivers end
            for _ in 0..2 { check!(good(a.send(&[255, 255]).await, "send") == 2, "length") }
        }, 1); a });
        two([rx(b.clone()), rx(b.clone())], threads, d);
        drop(s.join().unwrap());
    }} }
    if form < 3 {
        rt::tcp(3);
        let a = Async::<UdpSocket>::bind(lo()).unwrap();
        let b = Async::<UdpSocket>::bind(lo()).unwrap();
        let (aa, ba) = (a.get_ref().local_addr().unwrap(), b.get_ref().local_addr().unwrap());
        a.get_ref().connect(ba).unwrap(); b.get_ref().connect(aa).unwrap();
        go!(UdpSocket, a, b, |b: &Arc<Async<UdpSocket>>, m: &mut [u8; 3]| { let b = b.clone(); let m: *mut [u8; 3] = m; async move { let m = unsafe { &mut *m }; match form {
            0 => good(b.recv(m).await, "recv"),
            1 => { let (k, f) = good(b.recv_from(m).await, "recv_from"); check!(f == aa, "from {f}"); k }
            _ => { let k = good(b.peek(m).await, "peek"); check!(k == 2 && m[0] == m[1] && m[2] == 9, "peeking gives {k} bytes {m:?}"); *m = [9; 3]; good(b.recv(m).await, "recv") }
        } } })
    } else {
        let (a, b) = UnixDatagram::pair().unwrap();
        small(a.as_raw_fd()); small(b.as_raw_fd());
        go!(UnixDatagram, Async::new(a).unwrap(), Async::new(b).unwrap(), |b: &Arc<Async<UnixDatagram>>, m: &mut [u8; 3]| { let b = b.clone(); let m: *mut [u8; 3] = m; async move { let m = unsafe { &mut *m }; if form == 3 { good(b.recv(m).await, "recv") } else { good(b.recv_from(m).await, "recv_from").0 } } })
    }
    t.get().all();
    end();
}
/// Two tasks read from one end of a stream, two others write to the other end.
pub fn share_stream() {
    boot(); rt::time_points(false); horizon();
    const N: usize = 3;
    let t = Tally::new(2, N);
    let (threads, d, how) = (rt::choose(2) == 1, rt::choose(2), rt::choose(2));
    let (a, b) = upair();
    let b = Arc::new(b);
    let s = spawn(move || { run(async {
        // every write is one byte, or two that are split over the reads
        let s = |i: usize| { let a = &a; async move { let mut j = 0; while j < N { let v: Vec<u8> = (j..(j + 1 + how).min(N)).map(|j| (i * N + j) as u8).collect(); let n = good(a.write_with(|mut s| s.write(&v)).await, "write"); check!(n >= 1 && n <= v.len(), "wrote {n}"); j += n } } };
        future::zip(s(0), s(1)).await;
        a.get_ref().shut();
    }, 1); a });
    let rx = |b: Arc<Async<UnixStream>>| move |i: usize| -> Task { let b = b.clone(); Box::pin(async move { loop {
        let mut m = [200u8; 4];
        let k = good(b.read_with(|mut s| s.read(&mut m[..1 + how])).await, "read");
        if k == 0 { break }
        for x in &m[..k] { t.get().take(i, *x as usize) }
    } }) };
    two([rx(b.clone()), rx(b.clone())], threads, d);
    drop(s.join().unwrap());
    t.get().all();
    end();
}
/// Two tasks accept connections of one listener.
pub fn share_accept() {
    boot(); rt::time_points(false); horizon();
    let t = Tally::new(2, 1);
    let form = rt::choose(4);
    let (threads, d) = (rt::choose(2) == 1, rt::choose(2));
    use futures_lite::StreamExt;
    macro_rules! go { ($t:ty, $l:expr, $c:expr) => {{
        let l = Arc::new($l);
        let s = spawn($c);
        let ac = |l: Arc<Async<$t>>| move |i: usize| -> Task { let l = l.clone(); Box::pin(async move {
            let s = if form & 1 == 0 { good(l.accept().await, "accept").0 } else { let inc = l.incoming(); futures_lite::pin!(inc); good(inc.next().await.unwrap(), "incoming") };
            let mut m = [0u8; 2];
            let k = good(s.read_with(|mut s| s.read(&mut m)).await, "read");
            check!(k == 1, "read {k} bytes");
            t.get().take(i, m[0] as usize);
            std::mem::forget(s); // see tcp_reset
        }) };
        two([ac(l.clone()), ac(l.clone())], threads, d);
        std::mem::forget(s.join().unwrap());
    }} }
    if form < 2 {
        rt::tcp(3);
        let l = Async::<TcpListener>::bind(lo()).unwrap();
        let addr = l.get_ref().local_addr().unwrap();
        go!(TcpListener, l, move || { let mut v = vec![]; run(async { for i in 0..2u8 { let s = good(Async::<TcpStream>::connect(addr).await, "connect"); check!(good(s.write_with(|mut s| s.write(&[i])).await, "write") == 1, "wrote"); v.push(s) } }, 1); v })
    } else {
        use std::os::linux::net::SocketAddrExt;
        let name = format!("async-io mc share {}", std::process::id());
        let addr = std::os::unix::net::SocketAddr::from_abstract_name(&name).unwrap();
        let l = Async::new(std::os::unix::net::UnixListener::bind_addr(&addr).unwrap()).unwrap();
        go!(std::os::unix::net::UnixListener, l, move || { let mut v = vec![]; run(async { for i in 0..2u8 { let s = good(Async::<UnixStream>::connect(format!("\0{name}")).await, "connect"); check!(good(s.write_with(|mut s| s.write(&[i])).await, "write") == 1, "wrote"); v.push(s) } }, 1); v })
    }
    t.get().all();
    end();
}
