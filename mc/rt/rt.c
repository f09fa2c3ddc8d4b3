// Controlled-execution runtime.
//
// The code under test is compiled with LLVM's ThreadSanitizer pass, but instead of the sanitizer's
// own run-time library this file provides the __tsan_* entry points: every atomic operation of the
// library and its dependencies becomes a scheduling point.  Blocking and time go through libc,
// which is interposed here (futex, epoll, clocks, sleeps, thread creation and exit, socket calls).
// Exactly one thread runs at a time; which one is decided at scheduling points from a list of
// deviations that the explorer prescribes.  Time is virtual: it moves only when nothing can run
// (to the earliest deadline) or when the explorer says so.  File descriptors, epoll and sockets are
// the kernel's own; only waiting is emulated.
#define _GNU_SOURCE
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
#define MAXT 14
#define NEVER (~0ull)
#define KOBJ 1ull

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, a, b, c, d, e, f) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

enum { S_FREE = 0, S_RUN, S_FUTEX, S_FD, S_JOIN, S_SLEEP, S_QUIESCE, S_DONE };

typedef struct {
  int st; volatile int go;
  u64 deadline; int timedout;
  uintptr_t faddr; u32 fbits; u64 fseq;
  struct pollfd pf[8]; int npf; int ready;
  int jt, qmode, want_exit;
  u64 run_steps; int solo;
  pthread_t pt;
  const char *what;
} thr;

static thr T[MAXT];
static int NT;
static int active, branching, started;   // started: accesses are recorded
static volatile int cur;
static __thread int me = -1;
static u64 now_ns, rt_off = 1700000000000000000ull, horizon = NEVER;
static u64 instants[64]; static int ninst;
static mc_slot *S;
static u32 devpos; static u64 hash_;
static int kdirty = 1; static u64 fseq;
static int tcp_grace;
static int ndeviated;
static u64 spin_limit = 400, step_limit = 60000; static u64 steps_since_time;
static pthread_key_t exit_key;
static int time_points = 1;
static u64 fault_mask; static int fault_thread = -1;
static int faults_left = 0;

// registry of descriptors
#define NFD 1024
typedef struct { int epfd; int reg; int vt; u64 exp, itv; u32 events; u64 data; u64 rep[2]; } fdinfo;
static u64 evseq;
static fdinfo F[NFD];
static u64 n_epoll, n_blocking, n_closed_reg, n_wait, n_ctl_add, n_ctl_mod, n_ctl_del, n_notify, n_wait_calls, n_close_ebadf;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

// ------------------------------------------------------------------ ending an execution
static void vlog(const char *fmt, ...) {
  if (!S || !S->want_log) return;
  char b[400]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < 0) return; if (n >= (int)sizeof b) n = sizeof b - 1;
  if (S->loglen + n + 1 >= MC_LOG) return;
  memcpy(S->log + S->loglen, b, n); S->loglen += n; S->log[S->loglen] = 0;
}
// Thousands of executions a second must not use up the ports of the machine: what is still open in the
// end is reset (nothing is left in TIME_WAIT), and every process has loopback addresses of its own.
static void tcp_reset(int fd) {
  int t = 0; socklen_t l = sizeof t;
  if (RAW(SYS_getsockopt, fd, SOL_SOCKET, SO_PROTOCOL, &t, &l, 0) || t != IPPROTO_TCP) return;
  struct linger g = {1, 0}; RAW(SYS_setsockopt, fd, SOL_SOCKET, SO_LINGER, &g, sizeof g, 0);
}
static void own_source(int fd, const struct sockaddr *a) {
  int t = 0; socklen_t l = sizeof t;
  if (RAW(SYS_getsockopt, fd, SOL_SOCKET, SO_PROTOCOL, &t, &l, 0) || t != IPPROTO_TCP) return;
  struct sockaddr_in6 s; l = sizeof s;
  if (RAW(SYS_getsockname, fd, &s, &l, 0, 0, 0)) return;
  unsigned pid = RAW(SYS_getpid, 0, 0, 0, 0, 0, 0);
  if (a->sa_family == AF_INET && s.sin6_family == AF_INET) {
    struct sockaddr_in b; memset(&b, 0, sizeof b); b.sin_family = AF_INET; b.sin_addr.s_addr = htonl((127u << 24) + (2u << 16) + (pid & 0xffff));
    if (s.sin6_port == 0 && *(const unsigned char *)&((const struct sockaddr_in *)a)->sin_addr == 127) RAW(SYS_bind, fd, &b, sizeof b, 0, 0, 0);
  } else if (a->sa_family == AF_INET6 && s.sin6_family == AF_INET6 && s.sin6_port == 0 && IN6_IS_ADDR_LOOPBACK(&((const struct sockaddr_in6 *)a)->sin6_addr)) {
    memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_addr = in6addr_loopback; RAW(SYS_bind, fd, &s, sizeof s, 0, 0, 0);
  }
}
static void finish(int status, const char *msg) __attribute__((noreturn));
static void finish(int status, const char *msg) {
  if (S->status == ST_NONE) {
    if (msg) { strncpy(S->msg, msg, MC_MSG - 1); S->msg[MC_MSG - 1] = 0; }
    S->vtime = now_ns; S->nthreads = NT; S->hash_full = hash_;
    S->counters[0] = n_epoll; S->counters[1] = n_blocking; S->counters[2] = n_closed_reg; S->counters[3] = n_wait;
    S->counters[4] = n_ctl_add; S->counters[5] = n_ctl_mod; S->counters[6] = n_ctl_del; S->counters[7] = n_notify;
    if (status == ST_OK && devpos != S->ndev) { status = ST_DIVERGE; strcpy(S->msg, "prescribed deviation never reached"); }
    vlog("== end: status %d %s\n", status, S->msg);
    S->status = status;
  }
  if (tcp_grace) for (int fd = 3; fd < NFD; fd++) tcp_reset(fd);
  for (;;) RAW(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
static void describe(char *b, int n) {
  int k = 0; b[0] = 0;
  for (int i = 0; i < NT; i++) {
    static const char *nm[] = {"free", "runnable", "futex", "fd", "join", "sleep", "quiesce", "done"};
    k += snprintf(b + k, k < n ? n - k : 0, "%sT%d:%s(%s)", i ? " " : "", i, nm[T[i].st], T[i].what ? T[i].what : "");
    if (k >= n) break;
  }
}
void mc_fail(const char *msg) { finish(ST_FAIL, msg); }
void mc_end(void) { finish(ST_OK, 0); }
void mc_cut(void) { finish(ST_CUT, 0); }
int mc_controlled(void) { return active && me >= 0; }

// ------------------------------------------------------------------ choices
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static int choose(int kind, int nalt, u64 obj, int wr, int br, int what) {
  if (S->npoints >= MC_MAXP) finish(ST_LIVELOCK, "too many steps");
  u32 i = S->npoints++;
  int alt = 0;
  if (devpos < S->ndev && S->devs[devpos].pt == i) {
    alt = S->devs[devpos].alt; devpos++;
    if (kind != 5) ndeviated++;
    if (alt >= nalt || !br) finish(ST_DIVERGE, "prescribed choice not available");
    if (devpos == S->ndev) {
      u64 h = mix(mix(mix(hash_, kind), me), nalt);
      S->hash_at_last = h; S->hash_at_last_valid = 1;
      if (S->expect_hash && S->expect_hash != h) finish(ST_DIVERGE, "replayed prefix differs");
    }
  }
  hash_ = mix(mix(mix(hash_, kind), me), nalt);
  hash_ = mix(hash_, alt);
  mc_point *p = &S->pts[i];
  p->obj = obj; p->kind = kind; p->tid = me; p->nalt = nalt; p->chosen = alt; p->wr = wr; p->br = br; p->what = what;
  return alt;
}
// hash of the decision point at index i, as the explorer must present it for a deviation there,
// is recomputed by the explorer from the recorded points (see engine.rs).

// ------------------------------------------------------------------ threads
static void futex_raw_wait(volatile int *a, int v) { RAW(SYS_futex, a, 128, v, 0, 0, 0); }
static void futex_raw_wake(volatile int *a) { RAW(SYS_futex, a, 129, 1, 0, 0, 0); }
static void wait_baton(int i) { while (!__atomic_load_n(&T[i].go, __ATOMIC_ACQUIRE)) futex_raw_wait(&T[i].go, 0); T[i].go = 0; }
static void give_baton(int i) { cur = i; __atomic_store_n(&T[i].go, 1, __ATOMIC_RELEASE); futex_raw_wake(&T[i].go); }

static int fd_ready(thr *t) {
  for (int i = 0; i < t->npf; i++) t->pf[i].revents = 0;
  struct timespec z = {0, 0};
  return RAW(SYS_ppoll, t->pf, t->npf, &z, 0, 0, 0) > 0;
}
static void set_now(u64 t) {
  if (t <= now_ns) return;
  now_ns = t; steps_since_time = 0;
  for (int i = 0; i < NT; i++) {
    thr *x = &T[i];
    if ((x->st == S_FUTEX || x->st == S_SLEEP || x->st == S_FD) && x->deadline <= now_ns) { x->st = S_RUN; x->timedout = 1; x->deadline = NEVER; }
  }
  for (int f = 0; f < NFD; f++) if (F[f].vt && F[f].exp <= now_ns) {
    u64 n = 1;
    if (F[f].itv) { n = 1 + (now_ns - F[f].exp) / F[f].itv; F[f].exp += n * F[f].itv; } else F[f].exp = NEVER;
    RAW(SYS_write, f, &n, 8, 0, 0, 0); kdirty = 1;
  }
  vlog("-- time %llu.%06llu ms\n", (unsigned long long)(now_ns / 1000000), (unsigned long long)(now_ns % 1000000));
}
static u64 next_deadline(int with_instants) {
  u64 d = NEVER;
  for (int i = 0; i < NT; i++) if ((T[i].st == S_FUTEX || T[i].st == S_SLEEP || T[i].st == S_FD) && T[i].deadline < d) d = T[i].deadline;
  for (int f = 0; f < NFD; f++) if (F[f].vt && F[f].exp < d) d = F[f].exp;
  if (with_instants) for (int i = 0; i < ninst; i++) if (instants[i] > now_ns && instants[i] < d) d = instants[i];
  return d;
}
static int maxvt;
static u32 enabled_mask(void) {
  u32 m = 0;
  for (int i = 0; i < NT; i++) {
    thr *t = &T[i];
    if (t->st == S_RUN) m |= 1u << i;
    else if (t->st == S_FD) {
      if (kdirty) t->ready = fd_ready(t);
      if (t->ready) m |= 1u << i;
    } else if (t->st == S_JOIN) { if (T[t->jt].st == S_DONE) m |= 1u << i; }
  }
  kdirty = 0;
  return m;
}
enum { W_PREEMPT, W_BLOCK, W_YIELD, W_EXIT };

// The one place where it is decided who runs next.
static void resched(int why, u64 obj, int wr, int what) {
  int self = me;
  S->steps++; T[self].run_steps++; steps_since_time++;
  if (S->steps > step_limit) {
    char b[900]; strcpy(b, "step limit reached without the run ending: "); describe(b + strlen(b), 800);
    finish(ST_LIVELOCK, b);
  }
  if (T[self].run_steps == spin_limit && S->want_log) { extern int backtrace(void **, int); extern void backtrace_symbols_fd(void *const *, int, int); void *b[40]; int n = backtrace(b, 40); vlog("T%d spins on %llx\n", self, (unsigned long long)obj); if (getenv("MC_BT")) backtrace_symbols_fd(b, n, 2); }
  if (why == W_PREEMPT && T[self].run_steps > spin_limit) { why = W_YIELD; T[self].run_steps = 0; }
  u32 E; int spun = 0, graced = 0;
  for (;;) {
    E = enabled_mask();
    if (why == W_YIELD && E == (1u << self)) {
      // the only thread that can run is yielding or spinning: let time pass
      u64 d = next_deadline(0);
      if (T[self].solo++ < 60) break;
      T[self].solo = 0;
      if (d != NEVER && d <= horizon && !spun) { spun = 1; set_now(d); continue; }
      if (!spun) { now_ns += 1000; spun = 1; }
    }
    if (E) break;
    int q0 = -1, q1 = -1;
    for (int i = 0; i < NT; i++) if (T[i].st == S_QUIESCE) { if (T[i].qmode == 0) q0 = i; else q1 = i; }
    if (tcp_grace && graced < tcp_grace) { // the kernel may still be delivering: wait for it in real time
      struct timespec ts = {0, 200000}; RAW(SYS_nanosleep, &ts, 0, 0, 0, 0, 0); graced++; kdirty = 1; continue;
    }
    if (q0 >= 0) { T[q0].st = S_RUN; continue; }
    u64 d = next_deadline(0);
    if (d != NEVER && d <= horizon) { set_now(d); continue; }
    if (q1 >= 0) { T[q1].st = S_RUN; continue; }
    if (d != NEVER) {
      char b[900]; strcpy(b, "time horizon reached: "); describe(b + strlen(b), 800); finish(ST_LIVELOCK, b);
    }
    char b[900]; strcpy(b, "no thread can run and no deadline is pending: "); describe(b + strlen(b), 800);
    finish(ST_DEADLOCK, b);
  }
  int order[MAXT], n = 0;
  if (why == W_PREEMPT) order[n++] = self;
  for (int k = 1; k <= NT; k++) { int i = (self + k) % NT; if ((E >> i & 1) && !(why == W_PREEMPT && i == self)) order[n++] = i; }
  int alt = 0;
  if (started) alt = choose(why == W_PREEMPT ? K_SCHED : K_SWITCH, n, obj, wr, branching, what);
  int next = order[alt];
  if (next != self) {
    S->switches++;
    T[self].run_steps = 0; T[self].solo = 0;
    vlog("-- switch T%d -> T%d (%s)\n", self, next, why == W_PREEMPT ? "preempt" : why == W_YIELD ? "yield" : why == W_EXIT ? "exit" : "block");
    if (T[next].st == S_FD || T[next].st == S_JOIN) T[next].st = S_RUN;
    give_baton(next);
    if (why != W_EXIT) wait_baton(self);
  } else if (T[self].st != S_RUN) T[self].st = S_RUN;
}
static inline int ctl(void) { return active && me >= 0; }
static void vis(u64 obj, int wr, int what) { resched(W_PREEMPT, obj, wr, what); }
static void block(const char *w) { T[me].what = w; resched(W_BLOCK, 0, 0, 0); T[me].what = 0; }

static void thread_exit_dtor(void *v) {
  long n = (long)v;
  if (!ctl()) return;
  if (n < 3) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
  T[me].st = S_DONE; vlog("T%d exits\n", me);
  resched(W_EXIT, 0, 0, 0);
  me = -1;
}
struct start { void *(*f)(void *); void *a; int id; };
static void *thread_main(void *p) {
  struct start s = *(struct start *)p; free(p);
  me = s.id; wait_baton(me);
  pthread_setspecific(exit_key, (void *)1);
  return s.f(s.a);
}
__attribute__((constructor)) static void init(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join");
  pthread_key_create(&exit_key, thread_exit_dtor);
}
static int create_fault;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  if (!real_create) init();
  if (!ctl()) return real_create(t, a, f, x);
  if (NT >= MAXT) finish(ST_INTERNAL, "too many threads");
  struct start *s = malloc(sizeof *s); s->f = f; s->a = x;
  int id = NT; s->id = id; memset(&T[id], 0, sizeof T[id]); T[id].deadline = NEVER;
  int r = real_create(t, a, thread_main, s);
  if (r) return r;
  T[id].pt = *t; T[id].st = S_RUN; NT++;
  vlog("T%d creates T%d\n", me, id);
  vis(KOBJ + 1, 1, 1);
  return 0;
}
int pthread_join(pthread_t t, void **r) {
  if (!real_join) init();
  if (ctl()) for (int i = NT - 1; i >= 0; i--) if (i != me && pthread_equal(T[i].pt, t)) { // handles are reused: the latest
    if (T[i].st != S_DONE) { T[me].st = S_JOIN; T[me].jt = i; block("join"); }
    break;
  }
  return real_join(t, r);
}
int sched_yield(void) { if (!ctl()) return ret(RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); resched(W_YIELD, 0, 0, 2); return 0; }

// ------------------------------------------------------------------ time
static void time_point(int what) {
  if (!branching || !time_points) return;
  u64 d = next_deadline(1);
  if (d == NEVER || d > horizon) return;
  if (choose(K_TIME, 2, 0, 0, 1, what)) set_now(d);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!ctl()) return ret(RAW(SYS_clock_gettime, c, ts, 0, 0, 0, 0));
  if (c != CLOCK_MONOTONIC && c != CLOCK_REALTIME && c != CLOCK_BOOTTIME && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_MONOTONIC_RAW)
    return ret(RAW(SYS_clock_gettime, c, ts, 0, 0, 0, 0));
  time_point(3);
  if (++steps_since_time > 20000) { now_ns += 1000; steps_since_time = 0; }
  u64 t = now_ns + (c == CLOCK_REALTIME ? rt_off : 0);
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
  return 0;
}
static u64 ts_ns(const struct timespec *t) {
  if (t->tv_sec < 0) return 0;
  if ((u64)t->tv_sec > 9000000000ull) return NEVER / 2;
  return (u64)t->tv_sec * 1000000000ull + t->tv_nsec;
}
static void sleep_until(u64 d) {
  if (d <= now_ns) { resched(W_YIELD, 0, 0, 4); return; }
  T[me].deadline = d; T[me].timedout = 0; T[me].st = S_SLEEP; block("sleep");
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  if (!ctl()) return ret(RAW(SYS_nanosleep, r, m, 0, 0, 0, 0));
  sleep_until(now_ns + ts_ns(r)); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) {
  if (!ctl()) return -(int)RAW(SYS_clock_nanosleep, c, fl, r, m, 0, 0);
  u64 t = ts_ns(r); if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) t -= rt_off; } else t += now_ns;
  sleep_until(t); return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }

// ------------------------------------------------------------------ futex
static long do_futex(u32 *addr, int op, u32 val, long a4, u32 *addr2, u32 val3) {
  int cmd = op & 127;
  if (cmd == 0 || cmd == 9) {
    vis((u64)addr, 0, 5);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    const struct timespec *ts = (void *)a4; u64 d = NEVER;
    if (ts) {
      u64 t = ts_ns(ts);
      if (cmd == 9) { if (op & 256) t = t > rt_off ? t - rt_off : 0; } else t += now_ns;
      if (t < NEVER / 2) d = t;
      if (d <= now_ns) { errno = ETIMEDOUT; return -1; }
    }
    thr *t = &T[me]; t->faddr = (uintptr_t)addr; t->fbits = cmd == 9 ? val3 : ~0u; t->fseq = ++fseq; t->deadline = d; t->timedout = 0; t->st = S_FUTEX;
    block("futex");
    T[me].deadline = NEVER;
    if (T[me].timedout) { T[me].timedout = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == 1 || cmd == 10) {
    vis((u64)addr, 1, 6);
    u32 bits = cmd == 10 ? val3 : ~0u; long n = 0;
    while (n < (long)(int)val) {
      int b = -1;
      for (int i = 0; i < NT; i++) if (T[i].st == S_FUTEX && T[i].faddr == (uintptr_t)addr && (T[i].fbits & bits) && (b < 0 || T[i].fseq < T[b].fseq)) b = i;
      if (b < 0) break;
      T[b].st = S_RUN; T[b].deadline = NEVER; T[b].timedout = 0; n++;
    }
    return n;
  }
  if (cmd == 3 || cmd == 4) {
    vis((u64)addr, 1, 7);
    if (cmd == 4 && *addr != val3) { errno = EAGAIN; return -1; }
    long n = 0;
    for (int i = 0; i < NT; i++) if (T[i].st == S_FUTEX && T[i].faddr == (uintptr_t)addr) {
      if (n < (long)val) { T[i].st = S_RUN; T[i].deadline = NEVER; n++; } else T[i].faddr = (uintptr_t)addr2;
    }
    return n;
  }
  finish(ST_INTERNAL, "unsupported futex operation");
}

// ------------------------------------------------------------------ faults
// fault classes (bit numbers)
enum { FC_ADD = 0, FC_MOD = 1, FC_DEL = 2, FC_WAIT = 3, FC_SOCKET = 4, FC_CONNECT = 5, FC_ACCEPT = 6, FC_IOCTL = 7, FC_GETSOCKOPT = 8, FC_IO = 9, FC_NOTIFY = 10 };
typedef int (*fault_cb)(int cls, int fd);
static fault_cb fcb;
static int fault_errs[16][6]; static int fault_n[16];
void mc_fault_set(int cls, const int *errs, int n) { for (int i = 0; i < n && i < 6; i++) fault_errs[cls][i] = errs[i]; fault_n[cls] = n; }
void mc_fault_clear(void) { memset(fault_n, 0, sizeof fault_n); }
static u64 n_faults; static int last_fault;
static int internal_fd[NFD]; // descriptors that belong to the poller (epoll, notifier, timer)
static int is_vt(int fd) { return fd >= 0 && fd < NFD && F[fd].vt; }
static int fault(int cls, int fd) {
  if (!branching || !fault_n[cls]) return 0;
  if (cls == FC_IO && (fd < 3 || fd >= NFD || internal_fd[fd] || is_vt(fd))) return 0;
  int a = choose(K_FAULT, 1 + fault_n[cls], fd, 0, 1, cls);
  if (!a) return 0;
  n_faults++; last_fault = fault_errs[cls][a - 1];
  vlog("T%d fault class %d fd %d errno %d\n", me, cls, fd, fault_errs[cls][a - 1]);
  return fault_errs[cls][a - 1];
}
u64 mc_nfaults(void) { return n_faults; }
int mc_last_fault(void) { return last_fault; }

// ------------------------------------------------------------------ descriptors
static void kop(int what) { S->syscalls++; vis(KOBJ, 1, what); kdirty = 1; }
static int nonblocking(int fd) { long f = RAW(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0); return f >= 0 && (f & O_NONBLOCK); }
static void wait_fd(int fd, short ev, const char *w) {
  thr *t = &T[me]; t->pf[0].fd = fd; t->pf[0].events = ev; t->npf = 1; t->ready = 0; t->st = S_FD; t->deadline = NEVER; t->timedout = 0; kdirty = 1;
  block(w);
}
// A call on a blocking descriptor that would block: note it and emulate the blocking.
static void maybe_block(int fd, short ev, int flags) {
  if (fd < 3 || (flags & MSG_DONTWAIT) || nonblocking(fd)) return;
  struct pollfd p = {fd, ev, 0}; struct timespec z = {0, 0};
  if (RAW(SYS_ppoll, &p, 1, &z, 0, 0, 0) != 0) return;
  n_blocking++; vlog("T%d BLOCKING call on fd %d\n", me, fd);
  do wait_fd(fd, ev, "blocking i/o"); while (RAW(SYS_ppoll, &p, 1, &z, 0, 0, 0) == 0);
}
#define PASS(nr, a, b, c, d, e, f) ret(RAW(nr, a, b, c, d, e, f))
#define LOGC(name, fd, r) vlog("T%d %s(fd %d) = %ld%s%s\n", me, name, (int)(fd), (long)(r), (r) < 0 ? " " : "", (r) < 0 ? strerrorname_np(errno) : "")

int epoll_create1(int f) { long r = PASS(SYS_epoll_create1, f, 0, 0, 0, 0, 0); if (ctl()) { n_epoll++; if (r >= 0 && r < NFD) internal_fd[r] = 1; LOGC("epoll_create1", r, r); } return r; }
int epoll_create(int n) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  if (!ctl()) return PASS(SYS_epoll_ctl, ep, op, fd, ev, 0, 0);
  kop(10 + op);
  if (op == EPOLL_CTL_ADD && fd >= 0 && fd < NFD && ev && ev->data.u64 == ~0ull) internal_fd[fd] = 1;
  if (fd >= 0 && fd < NFD && !internal_fd[fd]) {
    int e = fault(op == EPOLL_CTL_ADD ? FC_ADD : op == EPOLL_CTL_MOD ? FC_MOD : FC_DEL, fd);
    if (e) { errno = e; return -1; }
  }
  long r = PASS(SYS_epoll_ctl, ep, op, fd, ev, 0, 0);
  int e = errno;
  if (fd >= 0 && fd < NFD) {
    if (r == 0) {
      if (op == EPOLL_CTL_ADD) { F[fd].reg = 1; F[fd].epfd = ep; if (!internal_fd[fd]) n_ctl_add++; }
      if (op == EPOLL_CTL_DEL) { F[fd].reg = 0; n_ctl_del++; }
      if (op == EPOLL_CTL_MOD && !internal_fd[fd]) n_ctl_mod++;
      if (op != EPOLL_CTL_DEL) { F[fd].events = ev->events; F[fd].data = ev->data.u64; }
    }
    vlog("T%d epoll_ctl(%s fd %d ev %x key %lld) = %ld%s%s\n", me, op == 1 ? "ADD" : op == 2 ? "DEL" : "MOD", fd, op == 2 ? 0 : ev->events, op == 2 ? 0 : (long long)ev->data.u64, r, r < 0 ? " " : "", r < 0 ? strerrorname_np(e) : "");
  }
  errno = e; return r;
}
static long do_epoll_wait(int ep, struct epoll_event *ev, int max, u64 deadline) {
  n_wait_calls++;
  for (;;) {
    kop(20);
    int e = fault(FC_WAIT, ep);
    if (e) { errno = e; return -1; }
    long r = PASS(SYS_epoll_pwait, ep, ev, max, 0, 0, 8);
    if (r > 0) {
      ++evseq;
      for (int i = 0; i < r; i++) for (int f = 0; f < NFD; f++) if (F[f].reg && F[f].epfd == ep && F[f].data == ev[i].data.u64) {
        if (ev[i].events & (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR | EPOLLPRI)) F[f].rep[0] = evseq;
        if (ev[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR)) F[f].rep[1] = evseq;
      }
    }
    if (r != 0 || deadline <= now_ns) { n_wait++; vlog("T%d epoll_wait = %ld (first key %lld ev %x)\n", me, r, r > 0 ? (long long)ev[0].data.u64 : -1, r > 0 ? ev[0].events : 0); return r; }
    thr *t = &T[me]; t->pf[0].fd = ep; t->pf[0].events = POLLIN; t->npf = 1; t->ready = 0; t->st = S_FD; t->deadline = deadline; t->timedout = 0; kdirty = 1;
    block("epoll_wait");
    T[me].deadline = NEVER;
    if (T[me].timedout) { T[me].timedout = 0; deadline = 0; }
  }
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int ms) {
  if (!ctl()) return PASS(SYS_epoll_wait, ep, ev, max, ms, 0, 0);
  return do_epoll_wait(ep, ev, max, ms < 0 ? NEVER : now_ns + ms * 1000000ull);
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int ms, const sigset_t *s) {
  if (!ctl()) return PASS(SYS_epoll_pwait, ep, ev, max, ms, s, 8);
  return epoll_wait(ep, ev, max, ms);
}
int epoll_pwait2(int ep, struct epoll_event *ev, int max, const struct timespec *ts, const sigset_t *s) {
  if (!ctl()) return PASS(SYS_epoll_pwait2, ep, ev, max, ts, s, 8);
  return do_epoll_wait(ep, ev, max, ts ? now_ns + ts_ns(ts) : NEVER);
}
int eventfd(unsigned v, int f) { return PASS(SYS_eventfd2, v, f, 0, 0, 0, 0); }
int timerfd_create(clockid_t c, int f) {
  if (!ctl()) return PASS(SYS_timerfd_create, c, f, 0, 0, 0, 0);
  int ef = EFD_CLOEXEC; if (f & TFD_NONBLOCK) ef |= EFD_NONBLOCK;
  long r = PASS(SYS_eventfd2, 0, ef, 0, 0, 0, 0);
  if (r >= 0 && r < NFD) { F[r].vt = 1; F[r].exp = NEVER; F[r].itv = 0; }
  return r;
}
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) {
  if (!ctl() || !is_vt(fd)) return PASS(SYS_timerfd_settime, fd, fl, n, o, 0, 0);
  kop(21); time_point(8);
  u64 x; int nb = nonblocking(fd);
  if (!nb) RAW(SYS_fcntl, fd, F_SETFL, O_NONBLOCK | O_RDWR, 0, 0, 0);
  RAW(SYS_read, fd, &x, 8, 0, 0, 0);
  if (!nb) RAW(SYS_fcntl, fd, F_SETFL, O_RDWR, 0, 0, 0);
  u64 v = ts_ns(&n->it_value); F[fd].itv = ts_ns(&n->it_interval);
  if (!v) F[fd].exp = NEVER; else F[fd].exp = (fl & TFD_TIMER_ABSTIME) ? v : (v >= NEVER / 2 ? NEVER : now_ns + v);
  vlog("T%d timerfd_settime %lld ns\n", me, (long long)v);
  if (F[fd].exp <= now_ns) { u64 one = 1; RAW(SYS_write, fd, &one, 8, 0, 0, 0); F[fd].exp = NEVER; }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  if (!ctl() || fd < 3) return PASS(SYS_read, fd, b, n, 0, 0, 0);
  kop(22); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLIN, 0); long r = PASS(SYS_read, fd, b, n, 0, 0, 0); LOGC("read", fd, r); return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!ctl() || fd < 3) return PASS(SYS_write, fd, b, n, 0, 0, 0);
  kop(23); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLOUT, 0); long r = PASS(SYS_write, fd, b, n, 0, 0, 0); LOGC("write", fd, r); return r;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!ctl()) return PASS(SYS_readv, fd, v, n, 0, 0, 0);
  kop(22); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLIN, 0); long r = PASS(SYS_readv, fd, v, n, 0, 0, 0); LOGC("readv", fd, r); return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!ctl()) return PASS(SYS_writev, fd, v, n, 0, 0, 0);
  kop(23); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLOUT, 0); long r = PASS(SYS_writev, fd, v, n, 0, 0, 0); LOGC("writev", fd, r); return r;
}
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
  if (!ctl()) return PASS(SYS_recvfrom, fd, b, n, fl, a, l);
  kop(24); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLIN, fl); long r = PASS(SYS_recvfrom, fd, b, n, fl, a, l); LOGC("recv", fd, r); return r;
}
ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, 0, 0); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
  if (!ctl()) return PASS(SYS_sendto, fd, b, n, fl, a, l);
  kop(25); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLOUT, fl); long r = PASS(SYS_sendto, fd, b, n, fl, a, l); LOGC("send", fd, r); return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, 0, 0); }
ssize_t recvmsg(int fd, struct msghdr *m, int fl) { if (!ctl()) return PASS(SYS_recvmsg, fd, m, fl, 0, 0, 0); kop(24); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLIN, fl); return PASS(SYS_recvmsg, fd, m, fl, 0, 0, 0); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!ctl()) return PASS(SYS_sendmsg, fd, m, fl, 0, 0, 0); kop(25); int e = fault(FC_IO, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLOUT, fl); return PASS(SYS_sendmsg, fd, m, fl, 0, 0, 0); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  if (!ctl()) return PASS(SYS_accept4, fd, a, l, fl, 0, 0);
  kop(26); int e = fault(FC_ACCEPT, fd); if (e) { errno = e; return -1; } maybe_block(fd, POLLIN, 0); long r = PASS(SYS_accept4, fd, a, l, fl, 0, 0); LOGC("accept", fd, r); return r;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
// connect: the explorer may replace the answer of the OS through a hook
static int (*connect_hook)(int fd, const struct sockaddr *a, socklen_t l); // returns 1000000: pass through, 0 or errno: answer
void mc_connect_hook(int (*h)(int, const struct sockaddr *, socklen_t)) { connect_hook = h; }
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!ctl()) return PASS(SYS_connect, fd, a, l, 0, 0, 0);
  kop(27); int e = fault(FC_CONNECT, fd); if (e) { errno = e; return -1; }
  if (connect_hook) { e = connect_hook(fd, a, l); if (e != 1000000) { vlog("T%d connect(fd %d) answered %d\n", me, fd, e); errno = e; return e ? -1 : 0; } }
  if (!nonblocking(fd)) { n_blocking++; vlog("T%d BLOCKING connect on fd %d\n", me, fd); }
  if (tcp_grace) own_source(fd, a);
  long r = PASS(SYS_connect, fd, a, l, 0, 0, 0); LOGC("connect", fd, r); return r;
}
long mc_raw_connect(int fd, const struct sockaddr *a, socklen_t l) { kdirty = 1; return RAW(SYS_connect, fd, a, l, 0, 0, 0); }
long mc_raw_getsockopt(int fd, int lv, int o, void *v, socklen_t *n) { return RAW(SYS_getsockopt, fd, lv, o, v, n, 0); }
static int (*sockerr_hook)(int fd); // SO_ERROR: 1000000: pass through, else the value
void mc_sockerr_hook(int (*h)(int)) { sockerr_hook = h; }
int getsockopt(int fd, int lv, int o, void *v, socklen_t *n) {
  if (!ctl()) return PASS(SYS_getsockopt, fd, lv, o, v, n, 0);
  kop(28); int e = fault(FC_GETSOCKOPT, fd); if (e) { errno = e; return -1; }
  if (sockerr_hook && lv == SOL_SOCKET && o == SO_ERROR) { e = sockerr_hook(fd); if (e != 1000000) { *(int *)v = e; *n = 4; return 0; } }
  return PASS(SYS_getsockopt, fd, lv, o, v, n, 0);
}
static int (*peer_hook)(int fd, struct sockaddr *a, socklen_t *l);
void mc_peer_hook(int (*h)(int, struct sockaddr *, socklen_t *)) { peer_hook = h; }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (ctl() && peer_hook) { int e = peer_hook(fd, a, l); if (e != 1000000) { errno = e; return e ? -1 : 0; } }
  return PASS(SYS_getpeername, fd, a, l, 0, 0, 0);
}
int socket(int d, int t, int p) {
  if (!ctl()) return PASS(SYS_socket, d, t, p, 0, 0, 0);
  int e = fault(FC_SOCKET, -1); if (e) { errno = e; return -1; }
  long r = PASS(SYS_socket, d, t, p, 0, 0, 0); LOGC("socket", r, r); return r;
}
int shutdown(int fd, int how) { if (ctl()) kop(29); return PASS(SYS_shutdown, fd, how, 0, 0, 0, 0); }
int close(int fd) {
  if (!ctl()) return PASS(SYS_close, fd, 0, 0, 0, 0, 0);
  kop(30);
  if (fd >= 0 && fd < NFD) {
    if (F[fd].reg) { n_closed_reg++; vlog("T%d closes fd %d while registered\n", me, fd); }
    memset(&F[fd], 0, sizeof F[fd]); internal_fd[fd] = 0;
  }
  long r = PASS(SYS_close, fd, 0, 0, 0, 0, 0); LOGC("close", fd, r);
  if (r < 0) n_close_ebadf++;
  return r;
}
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  if (ctl() && rq == FIONBIO) { kop(31); int e = fault(FC_IOCTL, fd); if (e) { errno = e; return -1; } }
  return PASS(SYS_ioctl, fd, rq, a, 0, 0, 0);
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!ctl()) return PASS(SYS_poll, p, n, ms, 0, 0, 0);
  struct timespec z = {0, 0}; u64 d = ms < 0 ? NEVER : now_ns + ms * 1000000ull;
  for (;;) {
    kop(32);
    long r = PASS(SYS_ppoll, p, n, &z, 0, 0, 0);
    if (r != 0 || d <= now_ns || n > 8) return r;
    n_blocking++;
    thr *t = &T[me]; memcpy(t->pf, p, n * sizeof *p); t->npf = n; t->ready = 0; t->st = S_FD; t->deadline = d; t->timedout = 0; kdirty = 1;
    block("poll"); T[me].deadline = NEVER;
    if (T[me].timedout) { T[me].timedout = 0; d = 0; }
  }
}
long syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (!ctl()) return ret(RAW(nr, a[0], a[1], a[2], a[3], a[4], a[5]));
  switch (nr) {
    case SYS_futex: return do_futex((u32 *)a[0], a[1], a[2], a[3], (u32 *)a[4], a[5]);
    case SYS_epoll_pwait2: return epoll_pwait2(a[0], (void *)a[1], a[2], (void *)a[3], 0);
    case SYS_epoll_wait: case SYS_epoll_pwait: return epoll_wait(a[0], (void *)a[1], a[2], a[3]);
    case SYS_sched_yield: return sched_yield();
    case SYS_nanosleep: return nanosleep((void *)a[0], (void *)a[1]);
    case SYS_clock_gettime: return clock_gettime(a[0], (void *)a[1]);
    case SYS_eventfd2: return eventfd(a[0], a[1]);
  }
  return ret(RAW(nr, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ------------------------------------------------------------------ atomics
#define PT(p, w) do { if (ctl()) vis((u64)(p), w, 0); } while (0)
#define ATOM(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { PT(p, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { PT(p, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int mo) { PT(p, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int f) { PT(p, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int f) { PT(p, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int f) { PT(p, 1); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
#define RW(N) void __tsan_read##N(void *p) {} void __tsan_write##N(void *p) {} void __tsan_unaligned_read##N(void *p) {} void __tsan_unaligned_write##N(void *p) {} void __tsan_read_write##N(void *p) {} void __tsan_unaligned_read_write##N(void *p) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void *a, void *b) {} void __tsan_vptr_read(void *a) {}
void __tsan_read_range(void *a, size_t n) {} void __tsan_write_range(void *a, size_t n) {}

// ------------------------------------------------------------------ interface for scenarios
void mc_child_start(mc_slot *s) {
  S = s; now_ns = 1000000000000ull; NT = 1; me = 0; cur = 0; T[0].st = S_RUN; T[0].deadline = NEVER; T[0].pt = pthread_self();
  S->status = ST_NONE; S->npoints = 0; S->steps = S->switches = S->syscalls = 0; S->outcome = 0; S->loglen = 0; S->log[0] = 0; S->msg[0] = 0; S->hash_at_last_valid = 0;
  devpos = 0; hash_ = 1234567; active = 1;
}
void mc_branch(int on) { branching = on; if (on) started = 1; }
int mc_choose(int n) {
  if (n <= 1) return 0;
  int b = started; started = 1;
  int r = choose(K_CHOOSE, n, 0, 0, 1, 0); started = b;
  vlog("T%d choose %d of %d\n", me, r, n);
  return r;
}
u64 mc_now(void) { return now_ns; }
void mc_advance(u64 to) { set_now(to); }
void mc_add_instant(u64 t) { if (ninst < 64) instants[ninst++] = t; }
void mc_quiesce(int mode) { T[me].st = S_QUIESCE; T[me].qmode = mode; block("quiesce"); }
void mc_note(u64 v) { S->outcome = mix(S->outcome, v); }
void mc_horizon(u64 t) { horizon = t; }
void mc_limits(u64 spin, u64 steps) { if (spin) spin_limit = spin; if (steps) step_limit = steps; }
void mc_time_points(int on) { time_points = on; }
void mc_tcp(int grace) { tcp_grace = grace; }
int mc_tid(void) { return me; }
int mc_deviated(void) { return ndeviated; }
u64 mc_steps(void) { return S->steps; }
u64 mc_stat(int i) {
  switch (i) { case 0: return n_epoll; case 1: return n_blocking; case 2: return n_closed_reg; case 3: return n_wait; case 4: return n_ctl_add; case 5: return n_ctl_mod; case 6: return n_ctl_del; case 7: return NT; case 8: return n_wait_calls; case 9: return n_close_ebadf; }
  return 0;
}
int mc_registered(int fd) { return fd >= 0 && fd < NFD && F[fd].reg; }
u32 mc_reg_events(int fd) { return fd >= 0 && fd < NFD && F[fd].reg ? F[fd].events : 0; }
u64 mc_evseq(void) { return evseq; }
u64 mc_reported(int fd, int dir) { return fd >= 0 && fd < NFD ? F[fd].rep[dir] : 0; }
int mc_epfd(int fd) { return fd >= 0 && fd < NFD && F[fd].reg ? F[fd].epfd : -1; }
int mc_count_registered(void) { int n = 0; for (int f = 0; f < NFD; f++) n += F[f].reg; return n; }
int mc_blocked(int t) { return t < NT && T[t].st != S_RUN && T[t].st != S_DONE; }
const char *mc_blocked_on(int t) { return t < NT && T[t].what ? T[t].what : ""; }
void mc_log(const char *s) { vlog("T%d: %s\n", me, s); }
void mc_yield(void) { if (ctl()) resched(W_YIELD, 0, 0, 9); }
// a visible access of the harness to its own shared state
void mc_touch(const void *p, int wr) { PT(p, wr); }
void mc_kop(void) { if (ctl()) kop(33); }
void mc_kdirty(void) { kdirty = 1; }
u64 mc_next_deadline(void) { return next_deadline(0); }
