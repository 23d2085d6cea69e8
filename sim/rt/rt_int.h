// Internals of the dsim runtime (rt.cc, mem.cc, net.cc, libs.cc).
#pragma once
#include "dsim.h"

#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <time.h>

#define HIDDEN __attribute__((visibility("hidden")))
#define EXPORT extern "C" __attribute__((visibility("default")))

namespace dsim {

enum { MAXT = 250 };
struct VC { u32 c[MAXT]; };

enum TState { T_FREE = 0, T_READY, T_BLOCKED, T_DONE };
enum BlockWhy { B_NONE = 0, B_MUTEX, B_COND, B_RW, B_ONCE, B_FUTEX, B_JOIN, B_SLEEP, B_SOCK, B_USER };

struct Dtor { void (*fn)(void*); void* arg; };
typedef struct { const void* s[16]; int n; } SockSet;

struct Thr {
  int id;
  volatile int baton;      // futex word
  int state;
  bool harness;            // created by dsim::spawn
  bool detached;
  bool joined;
  int why;
  void* obj;
  u64 wake_at;             // ~0: never
  bool on_real_clock;
  bool timed_out;
  bool woken;
  int in_api;
  int in_rt;
  int nofault;
  int prio;
  i64 alloc_arm;
  bool alloc_hit, alloc_open;
  void* (*fn)(void*);
  void (*hfn)(void*);
  void* arg;
  void* ret;
  pthread_t pt;
  VC vc, fence_acq, fence_rel;
  bool has_fence_rel;
  u64 cs[NSTACK * 16];
  int cs_n;
  Dtor dt[32];
  int ndt;
  SockSet socks;
  u64 stalls, stall_from; bool stalled;
};

struct Sync {
  u64 key;
  VC vc;
  // mutex / rwlock state
  int owner;               // -1: free
  int count;
  int readers;
  u64 rset;                // reader threads
  int nwait_w;
  int once;                // 0 not started, 1 running, 2 done
  u64 cond_seq;
};

struct Glob {
  Thr t[MAXT];
  int nt;
  u64 steps, sync, plain, next_stop, next_plain, next_pct;
  bool resched;
  u64 now, next_wake;
  i64 wall_off; u64 wall_jumps;
  u64 evn, yields; int nstalled;
  u64 rs, rf[F_MAX], rw;   // prng states
  u32 fault_occ[F_MAX], fault_n[F_MAX];
  u64 fault_idx[F_MAX];    // replay cursor per kind
  u32 fppm[F_MAX], fmax[F_MAX];
  u64 ri;                  // replay cursor (schedule)
  u64 pct_points[64]; int npct; int low_prio;
  bool fair;
  RunCfg cfg;
  Result* res;
  u64 hash, shash;
};
extern Glob G;
extern HIDDEN __thread Thr* me;

static inline u64 mix64(u64 x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return x;
}
static inline u64 prng(u64& s) {
  u64 z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline void hmix(u64 v) { G.hash = mix64(G.hash ^ v) + 0x9e3779b97f4a7c15ULL; }

static inline bool sim() { return g_on && me != nullptr; }

void sync_point(u32 kind);               // scheduling point at a synchronisation operation
void plain_slow();
// blocks the calling thread; returns false on timeout
bool block(int why, void* obj, u64 deadline);
void wake_all(void* obj);
bool wake_one(void* obj, int why);       // scheduler choice among waiters
Sync* sync_of(const void* p);
void vc_join(VC& a, const VC& b);
void acquire(Sync* s);
void release(Sync* s);                   // join into
void release_store(Sync* s);             // replace
void new_epoch();

int create_thread(void* (*fn)(void*), void (*hfn)(void*), void* arg, bool harness);

// mem.cc
void mem_init();
bool in_arena(const void* p);
void* stack_for(int tid, size_t* size);
void access(const void* p, size_t n, bool write, bool atomic, u64 pc, bool race_only = false);
void raw_report(const char* cls, const char* msg);
void fill_stack(int slot, u64 pc);
u64 clock_now_steady();
i64 clock_now_wall();
void net_reset();
void wake_sock(const void* s);
extern u64 g_heap_used;

struct RtGuard {
  RtGuard() { me->in_rt++; }
  ~RtGuard() { me->in_rt--; }
};
}  // namespace dsim
