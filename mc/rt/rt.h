// Shared between the runtime (rt.c) and the explorer (src/engine.rs): keep both in step.
#ifndef MC_RT_H
#define MC_RT_H
#include <stdint.h>
#define MC_MAXP 80000
#define MC_MAXDEV 128
#define MC_MSG 4096
#define MC_LOG (1 << 20)

enum { K_SCHED = 1, K_SWITCH = 2, K_TIME = 3, K_FAULT = 4, K_CHOOSE = 5 };
enum {
  ST_NONE = 0, ST_OK = 1, ST_FAIL = 2, ST_DEADLOCK = 3, ST_LIVELOCK = 4,
  ST_DIVERGE = 5, ST_INTERNAL = 6, ST_CUT = 7
};

typedef struct {
  uint64_t obj;
  uint8_t kind, tid, nalt, chosen;
  uint8_t wr;      // object written
  uint8_t br;      // alternatives may be explored here
  uint16_t what;   // operation code (log only)
} mc_point;

typedef struct { uint32_t pt; uint32_t alt; } mc_dev;

typedef struct {
  // in
  uint32_t ndev, want_log, plain, _p1;
  uint64_t expect_hash;          // hash of the points up to the last deviation (0: do not check)
  mc_dev devs[MC_MAXDEV];
  // out
  uint32_t status, npoints, nthreads, hash_at_last_valid;
  uint64_t hash_at_last, hash_full, outcome, vtime, steps, switches, syscalls;
  uint64_t counters[16];
  char msg[MC_MSG];
  uint32_t loglen, _p2;
  char log[MC_LOG];
  mc_point pts[MC_MAXP];
} mc_slot;
#endif
