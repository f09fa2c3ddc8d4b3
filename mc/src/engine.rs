//! The explorer: enumerates schedules (and the other choices) of a scenario, one process per
//! execution, breadth first in the number of deviations from the default execution.
use crate::rt::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const NL: usize = 10; // levels
const ITEMS: usize = 1 << 21; // per level
const VISITED: usize = 1 << 25;
const DEVS: usize = 40;

#[derive(Clone, Copy, Debug)]
pub struct Bounds { pub p: u8, pub s: u8, pub t: u8, pub f: u8, pub total: u8 }
pub struct Scen {
    pub name: &'static str,
    pub about: &'static str,
    pub f: fn(),
    pub quick: Bounds,
    pub thorough: Bounds,
    /// Branch only at accesses that conflict with a later access of another thread.
    pub por: bool,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Item { n: u16, cost: [u8; 4], hash: u64, devs: [(u32, u16); DEVS] }

const NVIOL: usize = 8;
#[repr(C)]
struct Viol { used: AtomicBool, level: u32, status: u32, item: Item, msg: [u8; 4096] }

#[repr(C)]
struct Shared {
    lock: AtomicU32,
    stop: AtomicBool,
    len: [AtomicUsize; NL],
    busy: [AtomicUsize; NL],
    cur: AtomicUsize,
    started: AtomicBool,
    dropped: AtomicU64,
    execs: AtomicU64,
    level_execs: [AtomicU64; NL],
    transitions: AtomicU64,
    nodes: AtomicU64,
    syscalls: AtomicU64,
    switches: AtomicU64,
    diverged: AtomicU64,
    unstable: AtomicU64,
    cuts: AtomicU64,
    known: AtomicU64,
    maxpoints: AtomicU64,
    maxthreads: AtomicU64,
    outcomes: AtomicU64,
    truncated: AtomicU64,
    skipped_cost: AtomicU64,
    kinds: [AtomicU64; 8],
    viol: [Viol; NVIOL],
}

unsafe fn map<T>(n: usize) -> *mut T {
    let p = libc::mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut T
}
unsafe fn unmap<T>(p: *mut T, n: usize) { libc::munmap(p as *mut _, n * std::mem::size_of::<T>()); }

fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 32)
}

pub struct Ex { sh: *mut Shared, items: *mut Item, visited: *mut [u64; 2], outcomes: *mut u64 }
const NOUT: usize = 1 << 20;

fn devhash(devs: &[(u32, u16)]) -> [u64; 2] {
    let (mut a, mut b) = (77u64, 991u64);
    for d in devs { let v = (d.0 as u64) << 16 | d.1 as u64; a = mix(a, v); b = mix(b, v ^ 0x5555_aaaa_0f0f); }
    [a | 1, b | 1]
}

impl Ex {
    unsafe fn new() -> Ex { Ex { sh: map(1), items: map(ITEMS * NL), visited: map(VISITED), outcomes: map(NOUT) } }
    unsafe fn free(&self) { unmap(self.sh, 1); unmap(self.items, ITEMS * NL); unmap(self.visited, VISITED); unmap(self.outcomes, NOUT); }
    fn sh(&self) -> &'static Shared { unsafe { &*self.sh } }
    fn lock(&self) { while self.sh().lock.compare_exchange_weak(0, 1, Acquire, Relaxed).is_err() { std::hint::spin_loop(); unsafe { libc::syscall(libc::SYS_sched_yield); } } }
    fn unlock(&self) { self.sh().lock.store(0, Release) }
    /// True if the list was not there before.
    unsafe fn visit(&self, h: [u64; 2]) -> bool {
        let mut i = (h[0] >> 8) as usize % VISITED;
        for _ in 0..4096 {
            let a = &*(&raw const (*self.visited.add(i))[0] as *const AtomicU64);
            let b = &*(&raw const (*self.visited.add(i))[1] as *const AtomicU64);
            match a.compare_exchange(0, h[0], SeqCst, SeqCst) {
                Ok(_) => { b.store(h[1], SeqCst); return true; }
                Err(x) if x == h[0] => {
                    let mut y = b.load(SeqCst);
                    while y == 0 { std::hint::spin_loop(); y = b.load(SeqCst); }
                    if y == h[1] { return false; }
                }
                Err(_) => {}
            }
            i = (i + 1) % VISITED;
        }
        self.sh().dropped.fetch_add(1, SeqCst);
        false
    }
    unsafe fn outcome(&self, h: u64) {
        let h = h | 1;
        let mut i = (h >> 10) as usize % NOUT;
        for _ in 0..512 {
            let a = &*(self.outcomes.add(i) as *const AtomicU64);
            match a.compare_exchange(0, h, SeqCst, SeqCst) {
                Ok(_) => { self.sh().outcomes.fetch_add(1, SeqCst); return; }
                Err(x) if x == h => return,
                Err(_) => i = (i + 1) % NOUT,
            }
        }
    }
}

pub fn nworkers() -> usize {
    if let Ok(v) = std::env::var("MC_WORKERS") { if let Ok(n) = v.parse() { return n; } }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

/// Runs one execution in a child process and fills the slot.
unsafe fn execute(slot: *mut Slot, f: fn(), devs: &[(u32, u16)], expect: u64, want_log: bool, secs: u32) {
    let s = &mut *slot;
    s.ndev = devs.len() as u32;
    for (i, d) in devs.iter().enumerate() { s.devs[i] = Dev { pt: d.0, alt: d.1 as u32 }; }
    s.expect_hash = expect;
    s.want_log = want_log as u32;
    s.status = 0; s.npoints = 0; s.msg[0] = 0; s.loglen = 0; s.outcome = 0; s.steps = 0; s.switches = 0; s.syscalls = 0;
    let pid = libc::fork();
    if pid == 0 {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::alarm(secs);
        child(slot, f);
    }
    assert!(pid > 0, "fork");
    let mut st = 0;
    while libc::waitpid(pid, &mut st, 0) < 0 {}
    if s.status == 0 {
        let m = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { s.status = ST_HANG; "the execution does not end (no scheduling point reached within the real-time limit)".to_string() }
        else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL { s.status = ST_INTERNAL; "killed".to_string() }
        else if libc::WIFSIGNALED(st) { s.status = ST_CRASH; format!("the process died of signal {}", libc::WTERMSIG(st)) }
        else { s.status = ST_CRASH; format!("the process exited with status {}", libc::WEXITSTATUS(st)) };
        s.msg[..m.len()].copy_from_slice(m.as_bytes());
        s.msg[m.len()] = 0;
    }
}

unsafe fn child(slot: *mut Slot, f: fn()) -> ! {
    // core files would be useless
    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &z);
    mc_child_start(slot);
    let r = std::panic::catch_unwind(|| f());
    match r { Ok(()) => end(), Err(_) => fail("the scenario panicked") }
}

fn is_bad(st: u32) -> bool { matches!(st, ST_FAIL | ST_DEADLOCK | ST_LIVELOCK | ST_CRASH | ST_HANG) }
pub fn status_name(st: u32) -> &'static str {
    match st { ST_OK => "ok", ST_FAIL => "assertion", ST_DEADLOCK => "deadlock", ST_LIVELOCK => "livelock", ST_DIVERGE => "diverged", ST_INTERNAL => "internal", ST_CUT => "cut", ST_CRASH => "crash", ST_HANG => "hang", _ => "none" }
}

unsafe fn worker(ex: &Ex, sc: &Scen, b: Bounds, w: usize, deadline: Instant, slot: *mut Slot, known: &[String]) {
    let sh = ex.sh();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let mut set: libc::cpu_set_t = std::mem::zeroed();
    // pin to one of the CPUs we may use
    let mut all: libc::cpu_set_t = std::mem::zeroed();
    if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) == 0 {
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        if !cpus.is_empty() && ncpu > 1 { libc::CPU_SET(cpus[w % cpus.len()], &mut set); libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set); }
    }
    let mut out: Vec<Item> = Vec::new();
    loop {
        if sh.stop.load(SeqCst) || Instant::now() > deadline { return; }
        ex.lock();
        let mut got = None;
        let cur = sh.cur.load(SeqCst);
        let n = sh.len[cur].load(SeqCst);
        if n > 0 {
            sh.len[cur].store(n - 1, SeqCst);
            sh.busy[cur].fetch_add(1, SeqCst);
            got = Some((cur, *ex.items.add(cur * ITEMS + n - 1)));
        } else if sh.busy.iter().all(|x| x.load(SeqCst) == 0) && sh.started.load(SeqCst) {
            // this level is complete
            let mut c = cur + 1;
            while c < NL && sh.len[c].load(SeqCst) == 0 { c += 1; }
            sh.cur.store(if c == NL { NL - 1 } else { c }, SeqCst);
            if c == NL { sh.stop.store(true, SeqCst); ex.unlock(); return; }
        }
        ex.unlock();
        let Some((lvl, it)) = got else { libc::usleep(200); continue };
        let devs = &it.devs[..it.n as usize];
        execute(slot, sc.f, devs, it.hash, false, 15);
        let s = &mut *slot;
        sh.execs.fetch_add(1, SeqCst);
        sh.level_execs[lvl].fetch_add(1, SeqCst);
        sh.transitions.fetch_add(s.steps, SeqCst);
        sh.syscalls.fetch_add(s.syscalls, SeqCst);
        sh.switches.fetch_add(s.switches, SeqCst);
        sh.maxpoints.fetch_max(s.npoints as u64, SeqCst);
        sh.maxthreads.fetch_max(s.nthreads as u64, SeqCst);
        if let Ok(v) = std::env::var("MC_LONG") { if s.npoints as usize > v.parse().unwrap_or(9999) { eprintln!("long: {} {:?} {}", sc.name, devs, s.npoints); } }
        let first_new = devs.last().map(|d| d.0 as usize).unwrap_or(0);
        sh.nodes.fetch_add((s.npoints as u64).saturating_sub(first_new as u64), SeqCst);
        if it.n > 0 { let p = &s.pts[devs[it.n as usize - 1].0 as usize]; sh.kinds[p.kind as usize % 8].fetch_add(1, SeqCst); }
        ex.outcome(mix(s.outcome, s.status as u64));
        out.clear();
        if is_bad(s.status) {
            let (st, msg) = (s.status, s.msg());
            if known.iter().any(|k| msg.contains(k.as_str())) { sh.known.fetch_add(1, SeqCst); }
            else {
                let mut same = true;
                for _ in 0..2 {
                    execute(slot, sc.f, devs, it.hash, false, if st == ST_HANG { 60 } else { 30 });
                    if (*slot).status != st { same = false; }
                }
                if same {
                    ex.lock();
                    for v in &sh.viol {
                        if !v.used.load(SeqCst) {
                            let v = v as *const Viol as *mut Viol;
                            (*v).level = lvl as u32; (*v).status = st; (*v).item = it;
                            let m = msg.as_bytes(); let n = m.len().min(4095);
                            (&mut (*v).msg)[..n].copy_from_slice(&m[..n]); (*v).msg[n] = 0;
                            (*v).used.store(true, SeqCst);
                            break;
                        }
                    }
                    ex.unlock();
                    sh.stop.store(true, SeqCst);
                } else { sh.unstable.fetch_add(1, SeqCst); }
            }
        } else if s.status == ST_DIVERGE || s.status == ST_INTERNAL {
            if std::env::var("MC_DEBUG").is_ok() { eprintln!("{} {:?}: {} {}", sc.name, devs, status_name(s.status), s.msg()); }
            sh.diverged.fetch_add(1, SeqCst);
        } else {
            if s.status == ST_CUT { sh.cuts.fetch_add(1, SeqCst); }
            expand(ex, sc, b, &it, s, &mut out);
        }
        ex.lock();
        for o in &out {
            let l = o.cost.iter().map(|x| *x as usize).sum::<usize>();
            let n = sh.len[l].load(SeqCst);
            if n >= ITEMS { sh.dropped.fetch_add(1, SeqCst); continue; }
            *ex.items.add(l * ITEMS + n) = *o;
            sh.len[l].store(n + 1, SeqCst);
            if l < sh.cur.load(SeqCst) { sh.cur.store(l, SeqCst); }
        }
        sh.busy[lvl].fetch_sub(1, SeqCst);
        ex.unlock();
    }
}

unsafe fn expand(ex: &Ex, sc: &Scen, b: Bounds, it: &Item, s: &Slot, out: &mut Vec<Item>) {
    let sh = ex.sh();
    let devs = &it.devs[..it.n as usize];
    let n = s.npoints as usize;
    let mut conflict = vec![true; n];
    let por = sc.por && !nopor();
    if por {
        // does a later access of another thread conflict with the access at i?
        let mut later: HashMap<u64, (u32, u32)> = HashMap::new(); // object -> threads that read, write it later
        for i in (0..n).rev() {
            let p = &s.pts[i];
            if p.kind != K_SCHED { continue; }
            let e = later.entry(p.obj).or_insert((0, 0));
            let me = 1u32 << p.tid;
            // kernel operations may enable or disable threads that then do not show up later
            conflict[i] = p.obj == 1 || (e.1 & !me) != 0 || (p.wr != 0 && (e.0 & !me) != 0);
            if p.wr != 0 { e.1 |= me } else { e.0 |= me }
        }
    }
    let last = devs.last().map(|d| d.0 as i64).unwrap_or(-1);
    let mut h = 1234567u64;
    let mut cost = [0u8; 4];
    let mut k = 0usize;
    for i in 0..n {
        let p = &s.pts[i];
        let hd = mix(mix(mix(h, p.kind as u64), p.tid as i32 as i64 as u64), p.nalt as u64);
        let cls = match p.kind { K_SCHED => 0, K_SWITCH => 1, K_TIME => 2, K_FAULT => 3, _ => 9 };
        if p.br != 0 && p.nalt > 1 && (i as i64 > last || por) {
            let mut c = cost;
            let mut ok = true;
            if cls < 4 {
                c[cls] += 1;
                let lim = [b.p, b.s, b.t, b.f];
                ok = c[cls] <= lim[cls] && c.iter().map(|x| *x as u32).sum::<u32>() <= b.total as u32;
                if !ok { sh.skipped_cost.fetch_add(1, Relaxed); }
            }
            if ok && cls == 0 && !conflict[i] { ok = false; }
            if ok && k + 1 > DEVS { sh.truncated.fetch_add(1, SeqCst); ok = false; }
            if ok {
                for alt in 1..p.nalt {
                    if alt == p.chosen { continue; }
                    let mut o = *it;
                    o.n = k as u16 + 1;
                    o.devs[k] = (i as u32, alt as u16);
                    o.cost = c;
                    o.hash = hd;
                    if ex.visit(devhash(&o.devs[..k + 1])) { out.push(o); }
                }
            }
        }
        h = mix(hd, p.chosen as u64);
        if k < devs.len() && devs[k].0 as usize == i {
            if cls < 4 { cost[cls] += 1; }
            k += 1;
        }
    }
}

fn nopor() -> bool { static V: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *V.get_or_init(|| std::env::var("MC_NOPOR").is_ok()) }

pub struct Violation { pub status: u32, pub msg: String, pub devs: Vec<(u32, u16)>, pub log: String, pub level: u32 }
pub struct Report {
    pub name: &'static str,
    pub execs: u64, pub nodes: u64, pub transitions: u64, pub syscalls: u64, pub switches: u64,
    pub outcomes: u64, pub maxpoints: u64, pub maxthreads: u64,
    pub level_execs: Vec<u64>, pub completed: i32, pub exhausted: bool, pub capped: bool,
    pub diverged: u64, pub unstable: u64, pub dropped: u64, pub cuts: u64, pub known: u64, pub truncated: u64,
    pub kinds: [u64; 8],
    pub bounds: Bounds, pub wall: f64, pub violation: Option<Violation>, pub sample: String,
}

pub fn replay(sc: &Scen, devs: &[(u32, u16)]) -> (u32, String, String, u32) {
    unsafe {
        let slot: *mut Slot = map(1);
        execute(slot, sc.f, devs, 0, true, 60);
        let s = &*slot;
        let r = (s.status, s.msg(), s.log(), s.npoints);
        unmap(slot, 1);
        r
    }
}

pub fn explore(sc: &Scen, b: Bounds, cap: Duration, known: &[String]) -> Report {
    unsafe {
        let t0 = Instant::now();
        let deadline = t0 + cap;
        let ex = Ex::new();
        let sh = ex.sh();
        let slot: *mut Slot = map(1);
        let mut violation = None;
        // determinism of the default execution
        execute(slot, sc.f, &[], 0, true, 60);
        let (st1, h1, n1) = ((*slot).status, (*slot).hash_full, (*slot).npoints);
        let sample: String = (*slot).log();
        execute(slot, sc.f, &[], 0, false, 60);
        let det = st1 == (*slot).status && h1 == (*slot).hash_full && n1 == (*slot).npoints;
        if !det { sh.diverged.fetch_add(1, SeqCst); if std::env::var("MC_DEBUG").is_ok() { eprintln!("{}: default execution not deterministic ({} {} / {} {}) {}", sc.name, st1, n1, (*slot).status, (*slot).npoints, (*slot).msg()); } }
        // the root
        let root = Item { n: 0, cost: [0; 4], hash: 0, devs: [(0, 0); DEVS] };
        *ex.items = root;
        sh.len[0].store(1, SeqCst);
        sh.started.store(true, SeqCst);
        let mut pids = vec![];
        let nw = nworkers();
        for w in 0..nw {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let slot: *mut Slot = map(1);
                worker(&ex, sc, b, w, deadline, slot, known);
                libc::_exit(0);
            }
            assert!(pid > 0, "fork");
            pids.push(pid);
        }
        let mut lost = 0;
        for p in pids { let mut st = 0; while libc::waitpid(p, &mut st, 0) < 0 {} if st != 0 { lost += 1; } }
        if lost > 0 { sh.dropped.fetch_add(lost, SeqCst); }
        // the violation with the fewest deviations
        let mut best: Option<&Viol> = None;
        for v in &sh.viol { if v.used.load(SeqCst) && best.map(|x| (v.level, v.item.n) < (x.level, x.item.n)).unwrap_or(true) { best = Some(v); } }
        if let Some(v) = best {
            let devs = v.item.devs[..v.item.n as usize].to_vec();
            execute(slot, sc.f, &devs, 0, true, 60);
            let msg = std::ffi::CStr::from_ptr(v.msg.as_ptr() as *const _).to_string_lossy().into_owned();
            violation = Some(Violation { status: v.status, msg, devs, log: (*slot).log(), level: v.level });
        }
        let dropped = sh.dropped.load(SeqCst);
        let pending = (0..NL).any(|l| sh.len[l].load(SeqCst) > 0 || sh.busy[l].load(SeqCst) > 0);
        let capped = pending || dropped > 0;
        let cur = sh.cur.load(SeqCst);
        let completed = if !pending && violation.is_none() { b.total as i32 } else { cur as i32 - 1 };
        let r = Report {
            name: sc.name, execs: sh.execs.load(SeqCst), nodes: sh.nodes.load(SeqCst), transitions: sh.transitions.load(SeqCst),
            syscalls: sh.syscalls.load(SeqCst), switches: sh.switches.load(SeqCst), outcomes: sh.outcomes.load(SeqCst),
            maxpoints: sh.maxpoints.load(SeqCst), maxthreads: sh.maxthreads.load(SeqCst),
            level_execs: (0..=b.total as usize).map(|l| sh.level_execs[l].load(SeqCst)).collect(),
            completed, exhausted: !capped && violation.is_none() && sh.diverged.load(SeqCst) == 0 && sh.unstable.load(SeqCst) == 0 && sh.truncated.load(SeqCst) == 0,
            capped, diverged: sh.diverged.load(SeqCst), unstable: sh.unstable.load(SeqCst), dropped, cuts: sh.cuts.load(SeqCst),
            known: sh.known.load(SeqCst), truncated: sh.truncated.load(SeqCst),
            kinds: std::array::from_fn(|i| sh.kinds[i].load(SeqCst)),
            bounds: b, wall: t0.elapsed().as_secs_f64(), violation, sample,
        };
        unmap(slot, 1);
        ex.free();
        r
    }
}
