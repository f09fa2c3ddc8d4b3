//! Timers: operation sequences against a reference model, and races with the reactor.
use crate::rt;
use crate::util::*;
use async_io::Timer;
use futures_lite::Stream;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    PollA, PollB,
    FutA,
    SetAfter(u64), SetAt(i64), SetInterval(u64), SetIntervalAt(i64, u64),
    JustBefore, Exactly, Late,
    Settle,
    Drop,
}
use Op::*;
const MAX: u64 = u64::MAX;
fn dur(d: u64) -> Duration { if d == MAX { Duration::MAX } else { Duration::from_nanos(d) } }

/// The reference model: the deadline and the period of the last setting and who waits.
struct Model {
    when: Option<u64>,
    period: Option<u64>,
    /// The task to wake: its waker and the number of its wakes when it began to wait under the current schedule.
    waiting: Option<(&'static W, u64)>,
    /// A superseded deadline was due when it was superseded: its wake may be in flight.
    in_flight: bool,
}

struct Cx { t: Option<Timer>, m: Model, a: &'static W, b: &'static W, ck: Clock, expect_wakes: bool }

fn past(now: u64, d: i64) -> u64 { (now as i64 + d) as u64 }

impl Cx {
    fn poll(&mut self, w: &'static W, fut: bool) {
        let t = self.t.as_mut().unwrap();
        let now0 = rt::now();
        let n0 = w.n();
        let r = if fut { poll(Pin::new(t), w).map(Some) } else { poll_fn_with(w, |cx| Pin::new(t).poll_next(cx)) };
        let now1 = rt::now();
        match r {
            Poll::Ready(None) => rt::fail("the stream of a timer ended"),
            Poll::Ready(Some(i)) => {
                let v = self.ck.ns(i);
                let Some(d) = self.m.when else { rt::fail("a timer without a deadline was ready") };
                check!(v == d, "timer returned an instant {} ns off its deadline", v as i64 - d as i64);
                check!(d <= now1, "timer ready {} ns before its deadline", d - now1);
                rt::note(v);
                self.m.when = self.m.period.and_then(|p| d.checked_add(p));
                // a wake for the instant just reported may be in flight
                if self.m.waiting.is_some() && rt::deviated() { self.m.in_flight = true }
                self.m.waiting = if self.m.when.is_some() { Some((w, n0)) } else { None };
            }
            Poll::Pending => {
                if let Some(d) = self.m.when { check!(d > now0, "timer pending {} ns after its deadline", now0 - d) }
                // the wake of a previous waiter with the same waker does not count
                let keep = match self.m.waiting { Some((x, n)) if std::ptr::eq(x, w) => Some((x, n)), _ => None };
                self.m.waiting = keep.or(Some((w, n0)));
            }
        }
        rt::log(&format!("poll {} at {} -> {:?}", w.name, now0, r.is_ready()));
    }
    fn set(&mut self, when: Option<u64>, period: Option<u64>) {
        if self.m.when.map(|d| d <= rt::now()).unwrap_or(false) && self.m.waiting.is_some() { self.m.in_flight = true }
        self.m.when = when; self.m.period = period;
        if let Some((w, n)) = &mut self.m.waiting { *n = w.n() }
    }
    fn step(&mut self, op: Op) {
        rt::log(&format!("op {op:?}"));
        let now = rt::now();
        match op {
            PollA => self.poll(self.a, false),
            PollB => self.poll(self.b, false),
            FutA => self.poll(self.a, true),
            SetAfter(d) => { self.set(if d == MAX { None } else { Some(now + d) }, None); self.t.as_mut().unwrap().set_after(dur(d)) }
            SetAt(d) => { let v = past(now, d); self.set(Some(v), None); let i = self.ck.at(v); self.t.as_mut().unwrap().set_at(i) }
            SetInterval(p) => { self.set(if p == MAX { None } else { Some(now + p) }, Some(p)); self.t.as_mut().unwrap().set_interval(dur(p)) }
            SetIntervalAt(d, p) => { let v = past(now, d); self.set(Some(v), if p == MAX { None } else { Some(p) }); let i = self.ck.at(v); self.t.as_mut().unwrap().set_interval_at(i, dur(p)) }
            JustBefore => { let d = self.m.when.unwrap(); self.pass(d - 1) }
            Exactly => { let d = self.m.when.unwrap(); self.pass(d) }
            Late => { let d = self.m.when.unwrap(); let p = self.m.period.unwrap_or(3 * MS); self.pass(d + 2 * p + p / 2) }
            Settle => { rt::settle(); self.settled() }
            Drop => { self.t = None; self.m.when = None; self.m.waiting = None }
        }
        if let Some(t) = &self.t { check!(t.will_fire() == self.m.when.is_some(), "will_fire() is {} but an event is {}to come", t.will_fire(), if self.m.when.is_some() { "" } else { "not " }) }
    }
    fn pass(&mut self, to: u64) { pass_to(to); rt::settle(); self.settled() }
    /// The reactor is idle.
    fn settled(&mut self) {
        let now = rt::now();
        for w in [self.a, self.b] {
            let waits = self.m.waiting.map(|(x, _)| std::ptr::eq(x, w)).unwrap_or(false);
            if !waits { continue }
            let n = self.m.waiting.unwrap().1;
            match self.m.when {
                Some(d) if d <= now => {
                    check!(w.n() > n, "the task waiting for a timer was not woken although the deadline passed {} ns ago", now - d);
                    check!(*w.at.get() >= d, "the task was last woken before the deadline");
                }
                _ => check!(w.n() == n || self.m.in_flight, "a task was woken for a timer that is not due"),
            }
        }
    }
    fn possible(&self, op: Op) -> bool {
        let now = rt::now();
        match op {
            JustBefore => self.m.when.map(|d| d > now + 1).unwrap_or(false),
            Exactly => self.m.when.map(|d| d >= now).unwrap_or(false),
            Late => self.m.when.map(|d| d >= now && self.m.period != Some(0)).unwrap_or(false),
            Drop => self.t.is_some(),
            Settle => true,
            _ => self.t.is_some(),
        }
    }
    fn finish(&mut self) {
        // all that is due is delivered, and the wakers are released
        rt::settle();
        self.settled();
        self.t = None;
        let w = W::new("x");
        let mut t = Timer::after(Duration::from_nanos(1));
        let _ = poll(Pin::new(&mut t), w);
        let now = rt::now();
        pass_to(now + 1);
        rt::settle();
        check!(w.n() == 1, "a fresh timer does not fire");
        drop(t);
        for w in [self.a, self.b] { check!(w.refs() == 0, "waker {} is still held after its timer was dropped", w.name) }
        // nothing of the dropped timer fires later
        let (na, nb) = (self.a.n(), self.b.n());
        rt::quiesce();
        check!(self.a.n() == na && self.b.n() == nb, "a dropped timer woke its task");
        rt::note(na * 100 + nb);
    }
}

fn create(k: usize, ck: &Clock) -> (Timer, Option<u64>, Option<u64>) {
    let now = rt::now();
    let at = |d: i64| ck.at(past(now, d));
    match k {
        0 => (Timer::after(dur(3 * MS)), Some(now + 3 * MS), None),
        1 => (Timer::never(), None, None),
        2 => (Timer::interval(dur(2 * MS)), Some(now + 2 * MS), Some(2 * MS)),
        3 => (Timer::at(at(-(MS as i64))), Some(now - MS), None),
        4 => (Timer::interval_at(at(MS as i64), dur(2 * MS)), Some(now + MS), Some(2 * MS)),
        5 => (Timer::after(Duration::ZERO), Some(now), None),
        6 => (Timer::after(Duration::MAX), None, None),
        7 => (Timer::interval(Duration::MAX), None, Some(MAX)),
        8 => (Timer::interval_at(at(-(5 * MS as i64)), dur(2 * MS)), Some(now - 5 * MS), Some(2 * MS)),
        9 => (Timer::interval_at(at(MS as i64), Duration::MAX), Some(now + MS), None),
        10 => (Timer::interval(Duration::ZERO), Some(now), Some(0)),
        11 => (Timer::at(at(4 * MS as i64 + 1)), Some(now + 4 * MS + 1), None),
        12 => (Timer::after(Duration::from_nanos(1)), Some(now + 1), None),
        _ => unreachable!(),
    }
}
fn model(kinds: &[usize], alphabet: &[Op], depth: usize) {
    boot();
    rt::time_points(false);
    let ck = Clock::new();
    let k = kinds[rt::choose(kinds.len())];
    let (t, when, period) = create(k, &ck);
    let mut c = Cx { t: Some(t), m: Model { when, period, waiting: None, in_flight: false }, a: W::new("a"), b: W::new("b"), ck, expect_wakes: true };
    let _ = c.expect_wakes;
    check!(c.t.as_ref().unwrap().will_fire() == when.is_some(), "will_fire() wrong for a new timer of kind {k}");
    for _ in 0..depth {
        let ok: Vec<Op> = alphabet.iter().copied().filter(|&o| c.possible(o)).collect();
        if ok.is_empty() { break }
        let i = rt::choose(ok.len());
        rt::note(i as u64);
        c.step(ok[i]);
    }
    c.finish();
}
/// Deadlines up to the last representable instant, beside a near one.
pub fn timer_extreme() {
    boot();
    rt::time_points(false);
    use std::time::Instant;
    let ck = Clock::new();
    let t0 = rt::now();
    let base = ck.at(t0);
    let most = |ok: &dyn Fn(u64) -> bool| { let (mut lo, mut hi) = (0u64, u64::MAX); while lo < hi { let m = lo + (hi - lo) / 2 + 1; if ok(m) { lo = m } else { hi = m - 1 } } lo };
    let secs = most(&|s| base.checked_add(Duration::from_secs(s)).is_some());
    let nanos = most(&|n| n < 1_000_000_000 && base.checked_add(Duration::new(secs, n as u32)).is_some());
    let span = Duration::new(secs, nanos as u32);
    let last = base + span;
    check!(last.checked_add(Duration::from_nanos(1)).is_none(), "harness: not the last instant");
    let back = most(&|s| base.checked_sub(Duration::from_secs(s)).is_some());
    let first = base - Duration::from_secs(back);
    const DAY: u64 = 86_400;
    let fars = [Duration::from_secs(3600), Duration::new(25 * DAY, 1), Duration::from_secs(50 * DAY), Duration::from_secs(1 << 32), Duration::new(8_999_999_000, 5), Duration::from_secs(9_223_372_037), Duration::from_secs(18_446_744_074), span - Duration::from_nanos(1), span];
    let k = rt::choose(fars.len() + 4);
    let w = W::new("far"); let nw = W::new("near");
    let near = |n: u64| { let mut t = Timer::after(Duration::from_nanos(n)); check!(poll(Pin::new(&mut t), nw).is_pending(), "early"); (t, rt::now() + n) };
    let fires = |(mut t, d): (Timer, u64)| { pass_to(d - 1); check!(nw.n() == 0, "woken early"); pass_to(d); rt::settle(); check!(nw.n() == 1 && *nw.at.get() == d, "a near timer is late beside a far one"); check!(poll(Pin::new(&mut t), nw).is_ready(), "pending after its deadline") };
    if k >= fars.len() {
        // intervals that end at the last instant, or would have to go beyond it; deadlines of long ago
        let j = k - fars.len();
        let (start, period) = match j { 0 => (base - Duration::from_millis(1), span + Duration::from_millis(1)), 1 => (base - Duration::from_millis(1), span + Duration::from_millis(1) + Duration::from_nanos(1)), 2 => (first + Duration::from_secs(2), Duration::MAX), _ => (first, Duration::from_secs(back) + Duration::from_millis(1)) };
        let mut t = Timer::interval_at(start, period);
        check!(t.will_fire(), "will not fire");
        let next = |t: &mut Timer, w: &'static W| poll_fn_with(w, |cx| Pin::new(t).poll_next(cx));
        let r = next(&mut t, w);
        check!(r == Poll::Ready(Some(start)), "gave {r:?}");
        check!(t.will_fire() == (j == 0 || j == 3), "will_fire() after the first instant");
        check!(next(&mut t, w).is_pending(), "ready again");
        if j == 3 {
            let d = t0 + MS;
            pass_to(d - 1); check!(w.n() == 0, "woken early");
            pass_to(d); rt::settle(); check!(w.n() == 1, "not woken at the second instant");
            let i = next(&mut t, w); check!(i == Poll::Ready(Some(ck.at(d))), "second instant {i:?}");
        } else {
            fires(near(2 * MS));
            check!(w.n() == 0, "woken without cause");
        }
        t.set_after(Duration::from_millis(1));
        let d = rt::now() + MS; let n = w.n();
        if j == 3 { check!(next(&mut t, w).is_pending(), "early") }
        pass_to(d - 1); check!(w.n() == n, "woken early"); pass_to(d); rt::settle();
        check!(w.n() == n + 1 && *w.at.get() == d, "not woken after it was set anew");
        check!(next(&mut t, w).is_ready() && next(&mut t, w).is_pending() && !t.will_fire(), "does not end");
        return;
    }
    let far = base + fars[k];
    let how = rt::choose(4);
    let mut t = match how { 0 => Timer::at(far), 1 => Timer::interval_at(far, Duration::from_nanos(1)), 2 => Timer::after(fars[k]), _ => { let mut t = Timer::never(); t.set_at(far); t } };
    let when = rt::choose(3);
    let first = if when == 0 { Some(near(MS)) } else { None };
    check!(poll(Pin::new(&mut t), w).is_pending(), "a far timer is ready");
    check!(t.will_fire(), "will not fire");
    match when { 0 => fires(first.unwrap()), 1 => fires(near(2 * MS)), _ => rt::settle() }
    check!(w.n() == 0, "woken without cause");
    if rt::choose(2) == 0 && k < 5 {
        // its time comes
        let d = t0 + fars[k].as_nanos() as u64;
        pass_to(d - 1); check!(w.n() == 0, "woken early");
        pass_to(d); rt::settle(); check!(w.n() == 1 && *w.at.get() == d, "a far timer is late");
        check!(poll(Pin::new(&mut t), w) == Poll::Ready(far), "not ready, or another instant");
    } else {
        pass_to(rt::now() + 2_000_000_000);
        check!(w.n() == 0, "woken without cause");
        let d = rt::now() + MS;
        t.set_after(Duration::from_millis(1));
        pass_to(d - 1); check!(w.n() == 0, "woken early");
        pass_to(d); rt::settle(); check!(w.n() == 1 && *w.at.get() == d, "late after it was set anew");
        check!(poll(Pin::new(&mut t), w) == Poll::Ready(ck.at(d)), "not ready, or another instant");
    }
    drop(t);
    let _: Option<Instant> = None;
    rt::note((k * 4 + how) as u64);
}
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];

pub fn timer_poll() { model(ALL, &[PollA, Settle, JustBefore, Exactly, Late, PollB, FutA], 5) }
pub fn timer_set() { model(&[0, 1, 2], &[PollA, SetAfter(2 * MS), SetAfter(MAX), Exactly, PollB, SetIntervalAt(MS as i64, 2 * MS), SetAt(-1), Settle], 4) }
pub fn timer_set2() { model(&[2, 0, 1], &[PollA, SetAt(2 * MS as i64), Exactly, SetInterval(2 * MS), SetInterval(MAX), SetIntervalAt(-(3 * MS as i64), 2 * MS), SetAfter(0), JustBefore, Drop], 4) }
pub fn timer_set_deep() { model(&[0, 1, 2, 3, 4], &[PollA, SetAfter(2 * MS), SetAfter(MAX), Exactly, PollB, SetIntervalAt(MS as i64, 2 * MS), SetAt(2 * MS as i64), SetInterval(2 * MS), SetInterval(MAX), JustBefore, Late, SetAt(-1), SetIntervalAt(MS as i64, MAX), Settle, Drop], 5) }
pub fn timer_interval() { model(&[2, 4, 8, 9, 10], &[PollA, Exactly, Late, JustBefore, PollB, Settle], 6) }

// ------------------------------------------------------------------ races with the reactor

/// A thread that creates a timer, polls it once and leaves it pending.
struct Set { w: &'static W, when: u64, t: Sh<Option<Timer>> }
impl Set {
    fn new(name: &'static str, when: u64) -> &'static Set { leak(Set { w: W::new(name), when, t: Sh::new(None) }) }
    fn start(&'static self, ck: Clock) {
        let mut t = Timer::at(ck.at(self.when));
        if poll(Pin::new(&mut t), self.w).is_ready() { *self.w.at.get() = rt::now(); self.w.log.get().push(rt::now()); check!(rt::now() >= self.when, "timer ready before its deadline"); *self.w.wakes.get() += 1 }
        *self.t.get() = Some(t);
    }
    /// Everything has come to rest.
    fn check(&self, slack: u64) {
        let w = self.w;
        check!(w.n() >= 1, "timer {} never woke its task", w.name);
        let at = w.log.get()[0];
        check!(at >= self.when, "timer {} woke its task {} ns early", w.name, self.when - at);
        check!(at <= self.when + slack, "timer {} woke its task {} us late", w.name, (at - self.when) / 1000);
        rt::note(w.n());
    }
    fn complete(&self) {
        if let Some(t) = self.t.get() { if t.will_fire() { check!(poll(Pin::new(t), self.w).is_ready(), "timer {} not ready after its deadline", self.w.name) } }
    }
}
const ANY: u64 = u64::MAX / 4;

/// Two threads start timers while the helper thread computes its timeout and goes to sleep.
fn race(a: u64, b: u64, timed: bool) {
    boot();
    rt::time_points(timed);
    let ck = Clock::new();
    let t0 = rt::now();
    let (x, y) = (Set::new("x", t0 + a), Set::new("y", t0 + b));
    let h = spawn(move || x.start(ck));
    y.start(ck);
    h.join().unwrap();
    rt::quiesce();
    let s = if timed { ANY } else { 0 };
    x.check(s); y.check(s);
    x.complete(); y.complete();
}
pub fn timer_race() { race(2 * MS, MS, false) }
pub fn timer_race_equal() { race(2 * MS, 2 * MS, false) }
pub fn timer_race_time() { race(2 * MS, MS, true) }

/// One timer is being moved or dropped by its owner while the other with an equal or different deadline is pending.
pub fn timer_reset_race() {
    boot();
    rt::time_points(true);
    let ck = Clock::new();
    let t0 = rt::now();
    let (x, y) = (Set::new("x", t0 + 2 * MS), Set::new("y", t0 + 2 * MS));
    let act = rt::choose(4);
    x.start(ck);
    let h = spawn(move || y.start(ck));
    match act {
        0 => *x.t.get() = None,
        1 => x.t.get().as_mut().unwrap().set_at(ck.at(t0 + MS)),
        2 => x.t.get().as_mut().unwrap().set_at(ck.at(t0 + 3 * MS)),
        _ => { let w2 = W::new("x'"); let t = x.t.get().as_mut().unwrap(); if poll(Pin::new(t), w2).is_pending() { h.join().unwrap(); rt::quiesce(); check!(w2.n() >= 1, "the latest waker of a timer was not woken"); y.check(ANY); } return }
    }
    let set_at = rt::now();
    let n0 = x.w.n();
    h.join().unwrap();
    rt::quiesce();
    y.check(ANY); y.complete();
    match act {
        0 => check!(x.w.log.get().iter().skip(n0 as usize).all(|t| *t <= set_at.max(t0 + 2 * MS)), "dropped timer woke its task late"),
        1 => { check!(x.w.n() >= 1, "reset timer never woke its task"); check!(x.w.log.get().last().unwrap() >= &(t0 + MS), "early"); x.complete() }
        _ => { check!(x.w.log.get().last().map(|t| *t >= t0 + 3 * MS).unwrap_or(false), "timer moved to a later deadline did not wake its task then"); x.complete() }
    }
}

/// A timer is started on one thread while another thread is just being woken by an earlier one and polls again.
pub fn timer_chain() {
    boot();
    rt::time_points(false);
    let ck = Clock::new();
    let t0 = rt::now();
    let x = Set::new("x", t0 + MS);
    let y = Set::new("y", t0 + MS);
    let z = Set::new("z", t0 + 2 * MS);
    x.start(ck);
    let h = spawn(move || { std::thread::sleep(Duration::from_nanos(MS)); z.start(ck) });
    y.start(ck);
    rt::quiesce();
    h.join().unwrap();
    rt::quiesce();
    for s in [x, y, z] { s.check(0); s.complete() }
}

/// More operations than the queue holds, the last of them racing with the helper thread.
fn full(n: usize, timed: bool) {
    boot_quiet();
    rt::limits(10_000, 400_000);
    rt::time_points(timed);
    let ck = Clock::new();
    let t0 = rt::now();
    let kind = rt::choose(3);
    let extra = rt::choose(4);
    let w = W::new("many");
    let mut many: Vec<Timer> = vec![];
    let churn = W::new("churn");
    let mut c = Timer::at(ck.at(t0 + 500 * MS));
    let mut ops = 0usize;
    while ops + 4 < n + extra {
        if kind == 0 { let mut t = Timer::at(ck.at(t0 + 2 * MS)); let _ = poll(Pin::new(&mut t), w); many.push(t); ops += 1 }
        else if kind == 1 { if ops == 0 { let _ = poll(Pin::new(&mut c), churn); ops += 1 } else { c.set_at(ck.at(t0 + 3 * MS + ops as u64)); ops += 2 } }
        else { let mut t = Timer::at(ck.at(t0 + 2 * MS)); let _ = poll(Pin::new(&mut t), churn); drop(t); ops += 2 }
    }
    let last = t0 + 3 * MS + ops.saturating_sub(1) as u64;
    rt::branch(true);
    let (x, y) = (Set::new("x", t0 + MS), Set::new("y", t0 + MS));
    let h = spawn(move || x.start(ck));
    y.start(ck);
    // a removal with the queue full
    let mut d = Timer::at(ck.at(t0 + 4 * MS));
    let dw = W::new("dropped");
    let _ = poll(Pin::new(&mut d), dw);
    drop(d);
    h.join().unwrap();
    rt::branch(false);
    rt::quiesce();
    let s = if timed { ANY } else { 0 };
    x.check(s); y.check(s); x.complete(); y.complete();
    check!(dw.n() == 0, "a dropped timer woke its task");
    if kind == 0 { check!(w.n() as usize == many.len(), "{} of {} timers with one deadline woke their task", w.n(), many.len()) }
    if kind == 1 { let _ = last; check!(churn.n() >= 1, "a timer that was reset often never woke its task"); check!(timed || churn.n() == 1, "woken {} times", churn.n()); check!(poll(Pin::new(&mut c), churn).is_ready(), "not ready") }
    if kind == 2 { check!(churn.n() == 0, "dropped timers woke their task") }
}
pub fn timer_full() { full(1000, false) }

/// Timers together with a thread inside block_on, which may drive the reactor, sleep, or leave.
fn with_block_on(first: u64, second: u64, timed: bool) {
    boot();
    rt::time_points(timed);
    let ck = Clock::new();
    let t0 = rt::now();
    let x = Set::new("x", t0 + first);
    let done = leak(Sh::new(0u64));
    let h = spawn(move || { let i = async_io::block_on(Timer::at(ck.at(t0 + second))); *done.get() = rt::now(); check!(ck.ns(i) == t0 + second, "wrong instant"); check!(rt::now() >= t0 + second, "early") });
    x.start(ck);
    h.join().unwrap();
    rt::quiesce();
    let lat = *done.get() - (t0 + second);
    check!(timed || lat <= 30 * MS, "block_on returned {} us after its timer's deadline", lat / 1000);
    x.check(if timed { ANY } else { 30 * MS });
    x.complete();
    rt::note(lat / MS);
}
pub fn timer_block_on_later() { with_block_on(MS, 2 * MS, false) }
pub fn timer_block_on_sooner() { with_block_on(2 * MS, MS, false) }
pub fn timer_block_on_far() { with_block_on(120 * MS, 40 * MS, false) }
pub fn timer_block_on_time() { with_block_on(2 * MS, MS, true) }

/// Two interval streams at once: one inside block_on on a thread of its own, one polled from outside,
/// by changing tasks and sometimes late.
fn two_intervals(same: bool, time: bool) {
    boot();
    if !time { rt::time_points(false) }
    let ck = Clock::new();
    let t0 = rt::now();
    let (pa, pb) = (MS, if same { MS } else { 700 * US });
    let h = spawn(move || async_io::block_on(async {
        let mut i = Timer::interval_at(ck.at(t0 + MS), Duration::from_nanos(pa));
        for k in 0..3 {
            let r = futures_lite::StreamExt::next(&mut i).await;
            let due = t0 + MS + k * pa;
            check!(r.map(|r| ck.ns(r)) == Some(due), "tick {k} at {:?} instead of {due}", r.map(|r| ck.ns(r)));
            check!(rt::now() >= due, "tick {k} too early");
            check!(i.will_fire(), "an interval timer says that it will not fire");
        }
    }));
    let ws = [W::new("x"), W::new("y")];
    let mut i = Timer::interval_at(ck.at(t0 + MS), Duration::from_nanos(pb));
    let late = rt::choose(2) == 1;
    for k in 0..3u64 {
        let due = t0 + MS + k * pb;
        let w = ws[k as usize % 2];
        let n = w.n();
        match poll_fn_with(w, |cx| Pin::new(&mut i).poll_next(cx)) {
            Poll::Pending => {
                if late && k == 0 { pass_to(due + 2 * pb) }
                pass_to(rt::now().max(due) + 50 * MS);
                check!(w.n() > n, "not woken for tick {k}");
                let r = poll_fn_with(w, |cx| Pin::new(&mut i).poll_next(cx));
                check!(matches!(r, Poll::Ready(Some(r)) if ck.ns(r) == due), "tick {k}: {r:?} instead of {due}");
            }
            Poll::Ready(r) => { check!(r.map(|r| ck.ns(r)) == Some(due) && rt::now() >= due, "tick {k}: {r:?} instead of {due}") }
        }
    }
    h.join().unwrap();
}
pub fn interval_two() { two_intervals(false, false) }
pub fn interval_two_same() { two_intervals(true, false) }
pub fn interval_two_time() { two_intervals(false, true) }

/// Many timers at once, started in some order; some are dropped, moved or handed to another task.
/// Each one that is left wakes its task at its deadline exactly, once.
pub fn timer_many() {
    boot();
    rt::time_points(false);
    rt::limits(20_000, 4_000_000);
    let ck = Clock::new();
    let t0 = rt::now();
    let n = [3usize, 8, 40, 250][rt::choose(4)];
    let order = rt::choose(5);
    let act = rt::choose(6);
    let step = 20 * US;
    let due = |i: usize| t0 + MS + step * match order { 0 => i, 1 => n - i, 2 => if i % 2 == 0 { i } else { 2 * n - i }, 3 => 0, _ => i / 3 } as u64;
    struct One { t: Option<Timer>, w: &'static W, at: u64 }
    let mut v: Vec<One> = (0..n).map(|i| One { t: Some(Timer::at(ck.at(due(i)))), w: W::new("one"), at: due(i) }).collect();
    for o in &mut v { check!(poll(Pin::new(o.t.as_mut().unwrap()), o.w).is_pending(), "ready too early") }
    rt::settle();
    let last = v.iter().map(|o| o.at).max().unwrap();
    for (i, o) in v.iter_mut().enumerate() {
        if i % 2 == 1 && act != 4 { continue }
        match act {
            1 => o.t = None,
            2 => { o.at = last + step * (1 + i as u64); o.t.as_mut().unwrap().set_at(ck.at(o.at)) }
            3 => { o.at = t0 + 500 * US; o.t.as_mut().unwrap().set_at(ck.at(o.at)) }
            4 => { let w = W::new("other"); check!(poll(Pin::new(o.t.as_mut().unwrap()), w).is_pending(), "ready too early"); let old = std::mem::replace(&mut o.w, w); old.on_wake(|| rt::fail("the previous task of a timer was woken")); }
            5 => { o.t = None; o.t = Some(Timer::at(ck.at(o.at))); o.w = W::new("new"); check!(poll(Pin::new(o.t.as_mut().unwrap()), o.w).is_pending(), "ready too early") }
            _ => {}
        }
    }
    rt::settle();
    rt::quiesce();
    let end = v.iter().filter(|o| o.t.is_some()).map(|o| o.at).max().unwrap();
    check!(rt::now() >= end, "a timer was not waited for");
    for (i, o) in v.iter_mut().enumerate() {
        match &mut o.t {
            None => check!(o.w.n() == 0, "dropped timer {i} woke its task"),
            Some(t) => {
                check!(o.w.log.get()[..] == [o.at], "timer {i} of {n} with deadline {} woke its task at {:?}", o.at, o.w.log.get());
                let r = poll(Pin::new(t), o.w);
                check!(matches!(r, Poll::Ready(x) if ck.ns(x) == o.at), "timer {i} of {n} is {r:?} after its wake");
            }
        }
        check!(o.w.refs() == 0, "the task of timer {i} is still referenced");
    }
}
