// dsim runtime: scheduler, threads, synchronisation primitives, clocks.
#include "rt_int.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

namespace dsim {

const char* const fault_names[F_MAX] = {
    "spurious_cas_failure", "spurious_wakeup", "allocation_failure", "thread_creation_failure",
    "monotonic_clock_jump", "wall_clock_step", "thread_stall", "network_delay", "network_stall",
    "connection_reset", "short_send", "short_recv", "connection_refused", "connect_blackhole",
    "dns_failure", "zlib_failure", "curl_init_failure", "curl_slist_failure", "stream_failure",
    "application_fault", "scheduler_choice", "curl_option_failure"};

bool g_on = false;
__thread Thr* me = nullptr;
Glob G;
static const u64 NEVER = ~0ull;

static inline long sys_futex(volatile int* a, int op, int v) {
  long r;
  register long r10 asm("r10") = 0;
  register long r8 asm("r8") = 0;
  register long r9 asm("r9") = 0;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  return r;
}

static void baton_wait(Thr* t) {
  while (!__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE)) sys_futex(&t->baton, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void baton_pass(Thr* t) {
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  sys_futex(&t->baton, FUTEX_WAKE_PRIVATE, 1);
}

// ------------------------------------------------------------------ reports
static void finish(int status) {
  Result* r = G.res;
  r->steps = G.steps; r->sync_steps = G.sync; r->plain = G.plain;
  r->sim_ns = G.now;
  r->log_hash = G.hash; r->sched_hash = G.shash;
  r->nthreads = G.nt;
  r->heap_used = g_heap_used;
  for (int i = 0; i < F_MAX; i++) { r->fault_seen[i] = G.fault_occ[i]; r->fault_fired[i] = G.fault_n[i]; }
  r->status = status;
  _exit(0);
}
void finish_ok() { g_on = false; finish(S_OK); __builtin_unreachable(); }

void fill_stack(int slot, u64 pc) {
  Result* r = G.res;
  int n = 0;
  if (pc) r->stack[slot][n++] = pc;
  if (me) {
    int k = me->cs_n;
    if (k > NSTACK * 16) k = NSTACK * 16;
    while (k > 0 && n < NSTACK) r->stack[slot][n++] = me->cs[--k];
  }
  r->nstack[slot] = n;
}
static void report(int status, const char* cls, const char* fmt, va_list ap) {
  g_on = false;
  Result* r = G.res;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  vsnprintf(r->msg, sizeof r->msg, fmt, ap);
  if (!r->nstack[0]) fill_stack(0, 0);
  finish(status);
}
void violation(const char* cls, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  report(S_VIOLATION, cls, fmt, ap);
  __builtin_unreachable();
}
void harness_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  report(S_ERROR, "harness-error", fmt, ap);
  __builtin_unreachable();
}
void sim_off() { g_on = false; }

// ------------------------------------------------------------------ scheduler
static void compute_next_wake() {
  u64 w = NEVER;
  for (int i = 0; i < G.nt; i++)
    if (G.t[i].state == T_BLOCKED && G.t[i].wake_at < w) w = G.t[i].wake_at;
  G.next_wake = w;
}
static void make_ready(Thr* t) { t->state = T_READY; t->obj = nullptr; G.resched = true; }
static void wake_due() {
  for (int i = 0; i < G.nt; i++) {
    Thr* t = &G.t[i];
    if (t->state == T_BLOCKED && t->wake_at <= G.now) { t->timed_out = true; make_ready(t); }
  }
  compute_next_wake();
}
static inline void set_next_stop() {
  u64 n = G.next_plain < G.next_pct ? G.next_plain : G.next_pct;
  if (G.cfg.replay) n = G.ri < G.cfg.nrsched ? G.cfg.rsched[G.ri].step : NEVER;
  G.next_stop = n;
}
static void draw_plain() {
  if (G.cfg.replay || !G.cfg.p_plain_ppm || G.fair) { G.next_plain = NEVER; return; }
  u64 mean = 1000000 / G.cfg.p_plain_ppm;
  if (!mean) mean = 1;
  // geometric-like: mixture of short and long gaps
  u64 r = prng(G.rs);
  u64 gap = 1 + (r >> 8) % (2 * mean);
  if ((r & 7) == 0) gap = 1 + (r >> 8) % 8;
  G.next_plain = G.steps + gap;
}
static int ready_list(int* out) {
  int n = 0;
  for (int i = 0; i < G.nt; i++) if (G.t[i].state == T_READY) out[n++] = i;
  return n;
}
static int next_cyc(int cur) {
  for (int k = 1; k <= G.nt; k++) { int i = (cur + k) % G.nt; if (G.t[i].state == T_READY) return i; }
  return -1;
}
static int top_prio() {
  int b = -1;
  for (int i = 0; i < G.nt; i++)
    if (G.t[i].state == T_READY && (b < 0 || G.t[i].prio > G.t[b].prio)) b = i;
  return b;
}
static void record_sched(int tid) {
  Result* r = G.res;
  if (r->nsched < TRACE_SCHED_CAP) { r->sched[r->nsched].step = G.steps; r->sched[r->nsched].tid = tid; }
  r->nsched++;
}
// PRNG / replay says who runs at this step; cur == -1 when the current thread cannot continue
static int decide(int cur, bool sync, int dflt) {
  if (G.cfg.replay) {
    int t = dflt;
    while (G.ri < G.cfg.nrsched && G.cfg.rsched[G.ri].step <= G.steps) {
      if (G.cfg.rsched[G.ri].step == G.steps) {
        int c = (int)G.cfg.rsched[G.ri].tid;
        if (c >= 0 && c < G.nt && G.t[c].state == T_READY) t = c;
      }
      G.ri++;
    }
    set_next_stop();
    return t;
  }
  if (G.fair) return sync || cur < 0 ? (dflt = next_cyc(cur < 0 ? me->id : cur)) : cur;
  if (G.cfg.strategy == ST_RR) return sync || cur < 0 ? next_cyc(me->id) : cur;
  if (G.cfg.strategy == ST_PCT) {
    bool hit = false;
    u64 nx = NEVER;
    for (int i = 0; i < G.npct; i++) {
      if (G.pct_points[i] <= G.steps) { if (G.pct_points[i]) { hit = true; G.pct_points[i] = 0; } }
      else if (G.pct_points[i] < nx) nx = G.pct_points[i];
    }
    G.next_pct = nx;
    if (hit && cur >= 0) G.t[cur].prio = --G.low_prio;
    int t = top_prio();
    set_next_stop();
    return t;
  }
  int l[MAXT];
  int n = ready_list(l);
  if (cur < 0) return l[n == 1 ? 0 : prng(G.rs) % n];
  if (sync) {
    if (G.steps >= G.next_stop) { draw_plain(); set_next_stop(); }
    if (n > 1 && prng(G.rs) % 1000000 < G.cfg.p_sync_ppm) return l[prng(G.rs) % n];
    return cur;
  }
  draw_plain();
  set_next_stop();
  if (n > 1) { int t = l[prng(G.rs) % (n - 1)]; if (t == cur) t = l[n - 1]; return t; }
  return cur;
}

static void switch_to(int t) {
  Thr* self = me;
  if (t == self->id) return;
  G.res->switches++;
  hmix(t);
  baton_pass(&G.t[t]);
  if (self->state != T_DONE) baton_wait(self);
}

static void describe_threads(char* buf, size_t cap) {
  static const char* const why[] = {"running", "mutex", "condition variable", "rwlock", "once", "future/futex", "join", "sleep", "socket", "harness"};
  size_t o = 0;
  buf[0] = 0;
  for (int i = 0; i < G.nt && o + 120 < cap; i++) {
    Thr* t = &G.t[i];
    const char* st = t->state == T_READY ? "ready" : t->state == T_DONE ? "done" : "blocked on ";
    const char* w = t->state == T_BLOCKED ? why[t->why] : "";
    o += snprintf(buf + o, cap - o, "%sT%d%s %s%s", i ? ", " : "", i, t->harness ? "(harness)" : "", st, w);
    if (t->state == T_BLOCKED && t->why == B_MUTEX) o += snprintf(buf + o, cap - o, " held by T%d", ((Sync*)t->obj)->owner);
    if (t->state == T_BLOCKED && t->wake_at != NEVER) o += snprintf(buf + o, cap - o, " (timed)");
  }
}
u64 thread_block_report(char* buf, u64 cap) { describe_threads(buf, cap); return 0; }

static void check_limits() {
  if (G.sync > G.cfg.max_sync) {
    char b[2048]; describe_threads(b, sizeof b);
    violation("no-progress", "no completion within %llu synchronisation steps: %s", (unsigned long long)G.cfg.max_sync, b);
  }
  if (G.now > G.cfg.max_sim_ns) {
    char b[2048]; describe_threads(b, sizeof b);
    violation("no-progress", "no completion within %.1f simulated seconds: %s", G.cfg.max_sim_ns / 1e9, b);
  }
}

// pick another thread because the current one cannot run
static void reschedule_blocked() {
  for (;;) {
    int l[MAXT];
    int n = ready_list(l);
    if (n == 0) {
      if (G.next_wake == NEVER) compute_next_wake();
      if (G.next_wake == NEVER) {
        char b[4096]; describe_threads(b, sizeof b);
        violation("deadlock", "all threads are blocked: %s", b);
      }
      if (G.next_wake > G.now) { G.now = G.next_wake; G.yields = 0; }
      check_limits();
      wake_due();
      continue;
    }
    G.steps++;
    int d = next_cyc(me->id);
    int t = decide(-1, true, d);
    if (t < 0 || G.t[t].state != T_READY) t = d;
    if (t != d) record_sched(t);
    G.resched = false;
    switch_to(t);
    return;
  }
}

bool block(int why, void* obj, u64 deadline) {
  Thr* t = me;
  t->state = T_BLOCKED; t->why = why; t->obj = obj; t->wake_at = deadline; t->timed_out = false;
  if (deadline < G.next_wake) G.next_wake = deadline;
  reschedule_blocked();
  t->wake_at = NEVER;
  t->on_real_clock = false;
  return !t->timed_out;
}
void wake_all(void* obj) {
  for (int i = 0; i < G.nt; i++)
    if (G.t[i].state == T_BLOCKED && G.t[i].obj == obj) make_ready(&G.t[i]);
}
bool wake_one(void* obj, int why) {
  int l[MAXT], n = 0;
  for (int i = 0; i < G.nt; i++)
    if (G.t[i].state == T_BLOCKED && G.t[i].obj == obj && G.t[i].why == why) l[n++] = i;
  if (!n) return false;
  int k = n > 1 ? (int)choose(n) : 0;
  make_ready(&G.t[l[k]]);
  return true;
}

// A stall lasts its simulated time or STALL_SYNC synchronisation steps of the
// others, whichever ends first: somebody who spins until the stalled thread
// releases something must not have to spin through the whole simulated time.
enum { STALL_SYNC = 3000 };
static void do_stall(u64 d) {
  me->stalls++;
  me->stall_from = G.sync; me->stalled = true; G.nstalled++;
  block(B_SLEEP, nullptr, G.now + d);
  me->stalled = false; G.nstalled--;
}
static void end_long_stalls() {
  for (int i = 0; i < G.nt; i++) {
    Thr* t = &G.t[i];
    if (t->stalled && t->state == T_BLOCKED && t->why == B_SLEEP && G.sync - t->stall_from > STALL_SYNC) {
      // the clock goes on to the end of the stall, unless some other timer comes first
      u64 first = NEVER;
      for (int k = 0; k < G.nt; k++)
        if (G.t[k].state == T_BLOCKED && G.t[k].wake_at < first) first = G.t[k].wake_at;
      if (t->wake_at <= first && G.now < t->wake_at) { G.now = t->wake_at; wake_due(); }
      else { t->timed_out = true; make_ready(t); }
    }
  }
}

static void maybe_fair() {
  if (!G.fair && G.sync > G.cfg.fair_after) { G.fair = true; G.next_plain = G.next_pct = NEVER; set_next_stop(); }
}

void sync_point(u32 kind) {
  if (!sim()) return;
  G.steps++; G.sync++;
  G.now += G.cfg.tick_ns;
  G.shash = mix64(G.shash ^ ((u64)me->id << 32 | kind));
  if (G.nstalled && (G.sync & 255) == 0) end_long_stalls();
  if ((G.sync & 1023) == 0) { check_limits(); maybe_fair(); }
  else if (G.cfg.max_sync < G.sync) check_limits();
  if (G.now >= G.next_wake) wake_due();
  if (me->in_api && G.fppm[F_STALL]) {
    u64 d = fault_val(F_STALL, G.cfg.stall_min_ns, G.cfg.stall_max_ns);
    if (d) { do_stall(d); return; }
  }
  int t;
  if (G.cfg.replay && G.steps < G.next_stop) {
    return;
  }
  t = decide(me->id, true, me->id);
  G.resched = false;
  if (t >= 0 && t != me->id && G.t[t].state == T_READY) { G.res->preempts++; record_sched(t); switch_to(t); }
}
void plain_slow() {
  int t = decide(me->id, false, me->id);
  if (t >= 0 && t != me->id && G.t[t].state == T_READY) { G.res->preempts++; record_sched(t); switch_to(t); }
}

// ------------------------------------------------------------------ vector clocks
void vc_join(VC& a, const VC& b) { for (int i = 0; i < G.nt; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void new_epoch() { me->vc.c[me->id]++; }
void acquire(Sync* s) { vc_join(me->vc, s->vc); }
void release(Sync* s) { vc_join(s->vc, me->vc); new_epoch(); }
void release_store(Sync* s) { s->vc = me->vc; new_epoch(); }

// open addressing table of sync objects
enum { SYNC_CAP = 1 << 18 };
static Sync* sync_pool;
static u32* sync_idx;   // 0 = empty, else index+1
static u32 sync_n;
Sync* sync_of(const void* p) {
  u64 k = (u64)p;
  u32 h = (u32)(mix64(k) & (SYNC_CAP - 1));
  for (;;) {
    u32 i = sync_idx[h];
    if (!i) {
      if (sync_n + 1 >= SYNC_CAP * 3 / 4) harness_error("sync table full");
      sync_idx[h] = ++sync_n;
      Sync* s = &sync_pool[sync_n - 1];
      s->key = k; s->owner = -1;
      return s;
    }
    if (sync_pool[i - 1].key == k) return &sync_pool[i - 1];
    h = (h + 1) & (SYNC_CAP - 1);
  }
}

// ------------------------------------------------------------------ threads
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
static int (*real_mutex_lock)(pthread_mutex_t*);
static int (*real_mutex_trylock)(pthread_mutex_t*);
static int (*real_mutex_unlock)(pthread_mutex_t*);
static int (*real_mutex_destroy)(pthread_mutex_t*);
static int (*real_once)(pthread_once_t*, void (*)());
template <class F> static F real(F& f, const char* n) {
  if (!f) f = (F)dlsym(RTLD_NEXT, n);
  return f;
}

static void run_dtors(Thr* t) {
  while (t->ndt > 0) { Dtor d = t->dt[--t->ndt]; d.fn(d.arg); }
}
static void thread_end() {
  Thr* t = me;
  run_dtors(t);
  if (g_on) {
    sync_point(90);
    // a mutex that is still held can never be released any more
    new_epoch();
    t->state = T_DONE;
    wake_all(t);
    reschedule_blocked();
  }
  for (;;) syscall(SYS_pause);
}
static void install_sigstack() {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
}
static void* trampoline(void* a) {
  Thr* t = (Thr*)a;
  install_sigstack();
  baton_wait(t);
  me = t;
  if (t->harness) t->hfn(t->arg);
  else t->ret = t->fn(t->arg);
  thread_end();
  return nullptr;
}
int create_thread(void* (*fn)(void*), void (*hfn)(void*), void* arg, bool harness) {
  if (G.nt >= MAXT) harness_error("too many threads");
  int id = G.nt;
  Thr* t = &G.t[id];
  t->id = id; t->harness = harness; t->fn = fn; t->hfn = hfn; t->arg = arg;
  t->in_api = harness ? 0 : 1;
  t->wake_at = NEVER;
  t->alloc_arm = -1;
  if (me) { t->vc = me->vc; }
  G.nt++;
  t->vc.c[id] = 1;
  if (me) new_epoch();
  t->prio = G.cfg.strategy == ST_PCT && !G.cfg.replay ? (int)(1000 + prng(G.rs) % 1000000) : 0;
  size_t sz;
  void* st = stack_for(id, &sz);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, st, sz);
  pthread_attr_setguardsize(&at, 0);
  real(real_create, "pthread_create");
  int r = real_create(&t->pt, &at, trampoline, t);
  pthread_attr_destroy(&at);
  if (r) harness_error("pthread_create failed: %d", r);
  t->state = T_READY;
  return id;
}

int spawn(void (*fn)(void*), void* arg) {
  int id = create_thread(nullptr, fn, arg, true);
  sync_point(91);
  return id;
}
static bool join_thr(Thr* t, u64 deadline) {
  while (t->state != T_DONE) {
    if (!block(B_JOIN, t, deadline)) return t->state == T_DONE;
  }
  vc_join(me->vc, t->vc);
  return true;
}
void join(int tid) { join_thr(&G.t[tid], NEVER); }
bool join_deadline(int tid, u64 deadline) { return join_thr(&G.t[tid], deadline); }
bool thread_done(int tid) { return G.t[tid].state == T_DONE; }
u64 live_threads() { u64 n = 0; for (int i = 0; i < G.nt; i++) if (!G.t[i].harness && G.t[i].state != T_DONE) n++; return n; }

static void crash_handler(int sig, siginfo_t* si, void* uc) {
  (void)uc;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGXCPU ? "SIGXCPU" : "SIGABRT";
  if (!G.res) _exit(99);
  if (sig == SIGXCPU) violation("cpu-hang", "the run used up its processor time budget without finishing (endless loop)");
  u64 a = (u64)si->si_addr;
  const char* hint = "";
  if (a == 0xdbdbdbdbdbdbdbdbull || a == 0 ) hint = a ? " (freed memory pattern)" : "";
  violation("crash", "%s at address %#llx%s", n, (unsigned long long)a, hint);
}
static void on_terminate() {
  std::type_info* t = abi::__cxa_current_exception_type();
  if (t) violation("terminate", "std::terminate called: uncaught exception of type %s", t->name());
  violation("terminate", "std::terminate called");
}

void init_once() {
  mem_init();
  sync_pool = (Sync*)mmap(nullptr, sizeof(Sync) * (size_t)SYNC_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sync_idx = (u32*)mmap(nullptr, sizeof(u32) * (size_t)SYNC_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  real(real_create, "pthread_create");
  real(real_join, "pthread_join");
  real(real_detach, "pthread_detach");
  real(real_mutex_lock, "pthread_mutex_lock");
  real(real_mutex_trylock, "pthread_mutex_trylock");
  real(real_mutex_unlock, "pthread_mutex_unlock");
  real(real_mutex_destroy, "pthread_mutex_destroy");
  real(real_once, "pthread_once");
}

void run_child(const RunCfg& cfg, Result* res, void (*root)(void*), void* arg) {
  G.cfg = cfg;
  G.res = res;
  G.rs = mix64(cfg.seed * 2 + 1);
  G.rw = mix64(cfg.seed ^ 0x5eedf00dull);
  for (int i = 0; i < F_MAX; i++) { G.rf[i] = mix64(cfg.seed + 0x1000 * (i + 1)); G.fppm[i] = cfg.fault_ppm[i]; G.fmax[i] = cfg.fault_max[i]; }
  G.now = 1000000000ull;
  G.next_wake = NEVER;
  G.next_plain = G.next_pct = NEVER;
  G.low_prio = 0;
  if (!cfg.replay && cfg.strategy == ST_PCT) {
    G.npct = cfg.pct_depth > 60 ? 60 : cfg.pct_depth;
    for (int i = 0; i < G.npct; i++) { G.pct_points[i] = 1 + prng(G.rs) % (cfg.pct_horizon ? cfg.pct_horizon : 1); if (G.pct_points[i] < G.next_pct) G.next_pct = G.pct_points[i]; }
  }
  if (cfg.strategy == ST_RANDOM) draw_plain();
  set_next_stop();
  net_reset();

  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = crash_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(on_terminate);

  create_thread(nullptr, root, arg, true);
  g_on = true;
  baton_pass(&G.t[0]);
  for (;;) syscall(SYS_pause);
}

// ------------------------------------------------------------------ faults and choices
static bool fault_gate(Fault k, u64* val, bool* decided) {
  // replay: the decision comes from the list
  u32 occ = G.fault_occ[k]++;
  *val = 0;
  if (G.cfg.replay) {
    u64& i = G.fault_idx[k];
    *decided = true;
    while (i < G.cfg.nrfault) {
      const FaultEntry& e = G.cfg.rfault[i];
      if (e.kind != (u32)k || e.occ < occ) { i++; continue; }
      if (e.occ == occ) { *val = e.val; i++; return true; }
      return false;
    }
    return false;
  }
  *decided = false;
  return false;
}
static void record_fault(Fault k, u64 val) {
  Result* r = G.res;
  if (r->nfault < TRACE_FAULT_CAP) { FaultEntry& e = r->fault[r->nfault]; e.kind = k; e.occ = G.fault_occ[k] - 1; e.val = val; }
  r->nfault++;
  if (k != F_CHOICE) G.fault_n[k]++;
  else G.fault_n[k]++;
  hmix(((u64)k << 56) ^ val);
}
u64 fault_val(Fault k, u64 lo, u64 hi) {
  if (!sim() || me->nofault) return 0;
  if (!G.cfg.replay && !G.fppm[k]) { G.fault_occ[k]++; return 0; }
  u64 v; bool dec;
  fault_gate(k, &v, &dec);
  if (!dec) {
    if (G.fault_n[k] >= G.fmax[k] || prng(G.rf[k]) % 1000000 >= G.fppm[k]) return 0;
    v = lo + (hi > lo ? prng(G.rf[k]) % (hi - lo + 1) : 0);
    if (!v) v = 1;
  } else if (v && v < lo) v = lo;
  else if (v > hi) v = hi;   // a minimised plan may ask in a smaller range
  if (v) record_fault(k, v);
  return v;
}
bool fault(Fault k) { return fault_val(k, 1, 1) != 0; }
u64 choose(u64 n) {
  if (!sim() || n < 2) return 0;
  u64 v; bool dec;
  fault_gate(F_CHOICE, &v, &dec);
  if (!dec) v = prng(G.rf[F_CHOICE]) % n;
  if (v >= n) v = n - 1;
  if (v) record_fault(F_CHOICE, v);
  return v;
}
void set_fault(Fault k, u32 ppm, u32 maxn) { G.fppm[k] = ppm; G.fmax[k] = G.fault_n[k] + maxn; }
void clear_faults() { for (int i = 0; i < F_MAX; i++) G.fppm[i] = 0; if (G.cfg.replay) for (int i = 0; i < F_MAX; i++) if (i != F_CHOICE) G.fault_idx[i] = G.cfg.nrfault; }
void no_faults(bool on) { if (me) me->nofault += on ? 1 : -1; }

// ------------------------------------------------------------------ services
u64 ev() { return ++G.evn; }
u64 cur_ev() { return G.evn; }
u64 now() { return G.now; }
u64 clock_now_steady() { return 7000000000000ull + G.now; }
i64 clock_now_wall() { return 1700000000123456789ll + (i64)G.now + G.wall_off; }
i64 wall_ns() { return clock_now_wall(); }
u64 wall_jumps() { return G.wall_jumps; }
u64 steady_ns() { return clock_now_steady(); }
int self() { return me ? me->id : -1; }
void sleep_ns(u64 ns) { if (sim()) { sync_point(92); block(B_SLEEP, nullptr, G.now + ns); } }
void sleep_until(u64 t) { if (sim() && t > G.now) { sync_point(92); if (t > G.now) block(B_SLEEP, nullptr, t); } }
void yield_point() { sync_point(93); }
void api_enter() { if (me) me->in_api++; }
void api_exit() { if (me) me->in_api--; }
int api_depth() { return me ? me->in_api : 0; }
void jump_steady(u64 ns) { G.now += ns; hmix(ns); if (G.now >= G.next_wake) wake_due(); }
struct WallSeg { u64 from; i64 off; };
static WallSeg wall_segs[4096];
static int n_wall_segs;
bool wall_possible(u64 t0, u64 t1, i64 sec) {
  // segment -1: before the first step
  for (int i = -1; i < n_wall_segs; i++) {
    u64 a = i < 0 ? 0 : wall_segs[i].from, b = i + 1 < n_wall_segs ? wall_segs[i + 1].from : ~0ull;
    i64 off = i < 0 ? 0 : wall_segs[i].off;
    if (b < t0 || a > t1) continue;
    u64 x = a > t0 ? a : t0, y = b < t1 ? b : t1;
    i64 lo = (1700000000123456789ll + (i64)x + off), hi = (1700000000123456789ll + (i64)y + off);
    i64 slo = lo >= 0 ? lo / 1000000000 : -((-lo + 999999999) / 1000000000), shi = hi >= 0 ? hi / 1000000000 : -((-hi + 999999999) / 1000000000);
    if (sec >= slo && sec <= shi) return true;
  }
  return false;
}
void jump_wall(i64 ns) {
  G.wall_off += ns; G.wall_jumps++; hmix((u64)ns);
  if (n_wall_segs >= 4096) harness_error("too many wall clock steps");
  wall_segs[n_wall_segs].from = G.now; wall_segs[n_wall_segs].off = G.wall_off; n_wall_segs++;
  for (int i = 0; i < G.nt; i++) {
    Thr* t = &G.t[i];
    if (t->state == T_BLOCKED && t->on_real_clock && t->wake_at != NEVER) {
      if (ns > 0) t->wake_at = t->wake_at > (u64)ns && t->wake_at - ns > G.now ? t->wake_at - ns : G.now;
      else t->wake_at += (u64)-ns;
    }
  }
  compute_next_wake();
}
void log_event(u64 a, u64 b) { hmix(a); hmix(b); }
void hb_release(const void* k) { if (sim()) release(sync_of((const char*)k + 3)); }
void hb_acquire(const void* k) { if (sim()) acquire(sync_of((const char*)k + 3)); }
void probe(int i) { if (G.res && i >= 0 && i < NPROBE) G.res->probes[i]++; }
void set_max_sim(u64 ns) { G.cfg.max_sim_ns = ns; }
u64 rnd(u64 n) { return n ? prng(G.rw) % n : 0; }
void block_on(void* obj, u64 deadline) { if (sim()) { sync_point(94); block(B_USER, obj, deadline ? deadline : NEVER); } }
void wake_on(void* obj) { if (sim()) { wake_all(obj); sync_point(95); } }
u64 fault_count(Fault k) { return G.fault_n[k]; }
void note_fault(Fault k) { G.fault_n[k]++; }
void arm_alloc(i64 nth) { if (me) { me->alloc_arm = nth; me->alloc_hit = false; } }
static bool alloc_gate;
void gate_alloc_faults() { alloc_gate = true; }
void open_alloc_faults() { if (me) me->alloc_open = true; }
bool alloc_gated() { return alloc_gate && !me->harness && !me->alloc_open; }
bool alloc_fired() { return me && me->alloc_hit; }

static u64 abs_to_deadline(const struct timespec* ts, clockid_t c) {
  if (!ts) return NEVER;
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  __int128 base = c == CLOCK_REALTIME ? (__int128)clock_now_wall() : (__int128)clock_now_steady();
  __int128 d = v - base;
  if (d <= 0) return G.now;
  if (d > (__int128)1000000000 * 1000000000) return NEVER - 1;
  return G.now + (u64)d;
}
static void clock_faults(clockid_t c) {
  if (!me->in_api) return;
  if (c == CLOCK_REALTIME) {
    if (G.fppm[F_WALL_JUMP]) {
      u64 v = fault_val(F_WALL_JUMP, 1, 200000);   // +- 100000 s around zero
      if (v) jump_wall(((i64)v - 100000) * 1000000000ll);
    }
  } else if (G.fppm[F_STEADY_JUMP]) {
    u64 v = fault_val(F_STEADY_JUMP, 1, 4000);
    if (v) jump_steady(v < 2000 ? v * 1000000ull : (v - 2000) * 1000000000ull);
  }
}

}  // namespace dsim

using namespace dsim;

// ==================================================================== pthread
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static bool would_deadlock(Sync* s, Thr** who) {
  // follow the owner chain
  int o = s->owner;
  for (int n = 0; n < MAXT && o >= 0; n++) {
    Thr* t = &G.t[o];
    *who = t;
    if (t == me) return true;
    if (t->state == T_DONE) return true;
    if (t->state != T_BLOCKED || t->why != B_MUTEX || t->wake_at != NEVER) return false;
    o = ((Sync*)t->obj)->owner;
  }
  return false;
}
static int mutex_lock_until(pthread_mutex_t* m, u64 deadline) {
  sync_point(1);
  Sync* s = sync_of(m);
  access(m, 1, false, true, (u64)__builtin_return_address(0));
  while (s->owner >= 0) {
    if (s->owner == me->id) {
      if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
      if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    Thr* who = nullptr;
    if (deadline == ~0ull && would_deadlock(s, &who)) {
      if (who->state == T_DONE) violation("deadlock", "T%d waits for a mutex whose owner T%d has ended", me->id, who->id);
      if (s->owner == me->id) violation("deadlock", "T%d locks a mutex it already holds", me->id);
      char b[2048]; describe_threads(b, sizeof b);
      violation("deadlock", "lock cycle: T%d waits for a mutex held by T%d; %s", me->id, s->owner, b);
    }
    if (!block(B_MUTEX, s, deadline) && s->owner >= 0) return ETIMEDOUT;
  }
  s->owner = me->id; s->count = 1;
  acquire(s);
  return 0;
}
static int mutex_unlock(pthread_mutex_t* m) {
  sync_point(2);
  Sync* s = sync_of(m);
  access(m, 1, false, true, (u64)__builtin_return_address(0));
  if (s->owner != me->id) {
    if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK || mkind(m) == PTHREAD_MUTEX_RECURSIVE) return EPERM;
    violation("bad-unlock", "T%d unlocks a mutex it does not hold (owner T%d)", me->id, s->owner);
  }
  if (--s->count > 0) return 0;
  s->owner = -1;
  release_store(s);
  wake_all(s);
  return 0;
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!sim()) { return real(real_mutex_lock, "pthread_mutex_lock")(m); }
  return mutex_lock_until(m, ~0ull);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!sim()) return real(real_mutex_trylock, "pthread_mutex_trylock")(m);
  sync_point(3);
  Sync* s = sync_of(m);
  if (s->owner >= 0) {
    if (s->owner == me->id && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    return EBUSY;
  }
  s->owner = me->id; s->count = 1;
  acquire(s);
  return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!sim()) return pthread_mutex_lock(m);
  return mutex_lock_until(m, abs_to_deadline(ts, CLOCK_REALTIME));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!sim()) return pthread_mutex_lock(m);
  return mutex_lock_until(m, abs_to_deadline(ts, c));
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!sim()) { return real(real_mutex_unlock, "pthread_mutex_unlock")(m); }
  return mutex_unlock(m);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!sim()) return real(real_mutex_destroy, "pthread_mutex_destroy")(m);
  Sync* s = sync_of(m);
  if (s->owner >= 0) return EBUSY;
  return 0;
}

// ---- condition variables
static int cond_wait_until(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, bool realclock) {
  Sync* cs = sync_of(c);
  sync_point(4);
  Sync* s = sync_of(m);
  if (s->owner != me->id) violation("bad-wait", "condition wait with a mutex that is not held");
  int saved = s->count;
  s->count = 1;
  s->count = 0; s->owner = -1;
  release_store(s);
  wake_all(s);
  bool ok = true;
  if (fault(F_COND)) {
    yield_point();
  } else {
    me->on_real_clock = realclock;
    ok = block(B_COND, cs, deadline);
  }
  if (ok) acquire(cs);
  mutex_lock_until(m, ~0ull);
  s->count = saved;
  return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!sim()) return 0;
  return cond_wait_until(c, m, ~0ull, false);
}
static clockid_t cond_clock(pthread_cond_t* c) { return (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME; }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!sim()) return ETIMEDOUT;
  clockid_t k = cond_clock(c);
  return cond_wait_until(c, m, abs_to_deadline(ts, k), k == CLOCK_REALTIME);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!sim()) return ETIMEDOUT;
  return cond_wait_until(c, m, abs_to_deadline(ts, k), k == CLOCK_REALTIME);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!sim()) return 0;
  sync_point(5);
  Sync* s = sync_of(c);
  release(s);
  wake_one(s, B_COND);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!sim()) return 0;
  sync_point(6);
  Sync* s = sync_of(c);
  release(s);
  wake_all(s);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }

// ---- rwlocks
static int (*real_rd)(pthread_rwlock_t*);
static int (*real_wr)(pthread_rwlock_t*);
static int (*real_rwun)(pthread_rwlock_t*);
static int (*real_tryrd)(pthread_rwlock_t*);
static int (*real_trywr)(pthread_rwlock_t*);
static int rd_lock(pthread_rwlock_t* l, u64 deadline, bool tryonly) {
  sync_point(7);
  Sync* s = sync_of(l);
  while (s->owner >= 0) {
    if (tryonly) return EBUSY;
    if (s->owner == me->id) return EDEADLK;
    if (!block(B_RW, s, deadline) && s->owner >= 0) return ETIMEDOUT;
  }
  s->readers++;
  acquire(s);
  return 0;
}
static int wr_lock(pthread_rwlock_t* l, u64 deadline, bool tryonly) {
  sync_point(8);
  Sync* s = sync_of(l);
  while (s->owner >= 0 || s->readers > 0) {
    if (tryonly) return EBUSY;
    if (s->owner == me->id) return EDEADLK;
    if (!block(B_RW, s, deadline) && (s->owner >= 0 || s->readers > 0)) return ETIMEDOUT;
  }
  s->owner = me->id;
  acquire(s);
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return sim() ? rd_lock(l, ~0ull, false) : real(real_rd, "pthread_rwlock_rdlock")(l); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return sim() ? wr_lock(l, ~0ull, false) : real(real_wr, "pthread_rwlock_wrlock")(l); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return sim() ? rd_lock(l, 0, true) : real(real_tryrd, "pthread_rwlock_tryrdlock")(l); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return sim() ? wr_lock(l, 0, true) : real(real_trywr, "pthread_rwlock_trywrlock")(l); }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { return sim() ? rd_lock(l, abs_to_deadline(ts, CLOCK_REALTIME), false) : real(real_rd, "pthread_rwlock_rdlock")(l); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { return sim() ? wr_lock(l, abs_to_deadline(ts, CLOCK_REALTIME), false) : real(real_wr, "pthread_rwlock_wrlock")(l); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { return sim() ? rd_lock(l, abs_to_deadline(ts, c), false) : real(real_rd, "pthread_rwlock_rdlock")(l); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { return sim() ? wr_lock(l, abs_to_deadline(ts, c), false) : real(real_wr, "pthread_rwlock_wrlock")(l); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!sim()) return real(real_rwun, "pthread_rwlock_unlock")(l);
  sync_point(9);
  Sync* s = sync_of(l);
  if (s->owner == me->id) s->owner = -1;
  else if (s->readers > 0) s->readers--;
  else violation("bad-unlock", "read-write lock released without being held");
  release(s);
  wake_all(s);
  return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

// ---- spin locks
EXPORT int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!sim()) { while (__atomic_exchange_n((volatile int*)l, 1, __ATOMIC_ACQUIRE)) {} return 0; }
  Sync* s = sync_of((const void*)l);
  sync_point(1);
  while (s->owner >= 0) block(B_MUTEX, s, ~0ull);
  s->owner = me->id; acquire(s);
  return 0;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!sim()) { __atomic_store_n((volatile int*)l, 0, __ATOMIC_RELEASE); return 0; }
  Sync* s = sync_of((const void*)l);
  sync_point(2);
  s->owner = -1; release_store(s); wake_all(s);
  return 0;
}

// ---- once
EXPORT int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!sim()) return real(real_once, "pthread_once")(o, fn);
  sync_point(10);
  volatile int* v = (volatile int*)o;
  Sync* s = sync_of((const void*)o);
  for (;;) {
    if (*v == 2) { acquire(s); return 0; }
    if (s->once == 0) break;
    block(B_ONCE, s, ~0ull);
  }
  s->once = 1;
  try {
    fn();
  } catch (...) {
    s->once = 0;
    wake_all(s);
    throw;
  }
  release(s);
  s->once = 2;
  *v = 2;
  wake_all(s);
  sync_point(10);
  return 0;
}
EXPORT int __cxa_guard_acquire(char* g) {
  if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) { if (sim()) acquire(sync_of(g)); return 0; }
  if (!sim()) return 1;
  sync_point(11);
  Sync* s = sync_of(g);
  for (;;) {
    if (*(volatile char*)g) { acquire(s); return 0; }
    if (s->once == 0) { s->once = 1; acquire(s); return 1; }
    block(B_ONCE, s, ~0ull);
  }
}
EXPORT void __cxa_guard_release(char* g) {
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  if (!sim()) return;
  Sync* s = sync_of(g);
  s->once = 2;
  release(s);
  wake_all(s);
}
EXPORT void __cxa_guard_abort(char* g) {
  if (!sim()) return;
  Sync* s = sync_of(g);
  s->once = 0;
  wake_all(s);
}

// ---- threads
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!sim()) return real(real_create, "pthread_create")(out, at, fn, arg);
  sync_point(12);
  if (me->in_api && fault(F_THREAD)) return EAGAIN;
  int id = create_thread(fn, nullptr, arg, false);
  if (at) { int d = 0; pthread_attr_getdetachstate(at, &d); G.t[id].detached = d == PTHREAD_CREATE_DETACHED; }
  *out = G.t[id].pt;
  sync_point(12);
  return 0;
}
static Thr* by_pt(pthread_t p) { for (int i = 0; i < G.nt; i++) if (G.t[i].pt == p) return &G.t[i]; return nullptr; }
EXPORT int pthread_join(pthread_t p, void** ret) {
  if (!sim()) return real(real_join, "pthread_join")(p, ret);
  sync_point(13);
  Thr* t = by_pt(p);
  if (!t) return ESRCH;
  if (t == me) return EDEADLK;
  if (t->detached || t->joined) return EINVAL;
  join_thr(t, ~0ull);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t p) {
  if (!sim()) return real(real_detach, "pthread_detach")(p);
  Thr* t = by_pt(p);
  if (t) t->detached = true;
  return 0;
}
EXPORT void pthread_exit(void* r) {
  if (sim()) { me->ret = r; thread_end(); }
  for (;;) pause();
}
static int (*real_cxa_tls)(void (*)(void*), void*, void*);
EXPORT int __cxa_thread_atexit(void (*d)(void*), void* o, void* h) {
  if (!sim()) {
    if (!real_cxa_tls) real_cxa_tls = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit");
    return real_cxa_tls(d, o, h);
  }
  if (me->ndt < 32) { me->dt[me->ndt].fn = d; me->dt[me->ndt].arg = o; me->ndt++; }
  return 0;
}
EXPORT int sched_yield() {
  if (!sim()) return (int)syscall(SYS_sched_yield);
  // yielding takes time, and who yields over and over waits for something
  G.now += 1000;
  if (++G.yields > 400) { G.yields = 0; compute_next_wake(); if (G.next_wake != NEVER && G.next_wake > G.now) G.now = G.next_wake; }
  sync_point(14);
  // an explicit yield always lets somebody else go first when there is one
  G.steps++;
  int d = next_cyc(me->id);
  if (d >= 0 && d != me->id && !G.cfg.replay && G.cfg.strategy != ST_PCT) { record_sched(d); switch_to(d); }
  else if (G.cfg.strategy == ST_PCT && !G.cfg.replay) { me->prio = --G.low_prio; int t = top_prio(); if (t != me->id) { record_sched(t); switch_to(t); } }
  else if (G.cfg.replay) { int t = decide(me->id, true, me->id); if (t != me->id) { record_sched(t); switch_to(t); } }
  return 0;
}

// ---- futex based waiting of std::future
namespace {
int futex_wait_until(unsigned* addr, unsigned val, u64 deadline) {
  sync_point(15);
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return EAGAIN;
  if (fault(F_COND)) return EINTR;
  return block(B_FUTEX, addr, deadline) ? 0 : ETIMEDOUT;
}
}
EXPORT bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, i64 s, i64 ns) {
  if (!sim()) return true;
  struct timespec ts = {(time_t)s, (long)ns};
  return futex_wait_until(addr, val, has_timeout ? abs_to_deadline(&ts, CLOCK_REALTIME) : ~0ull) != ETIMEDOUT;
}
EXPORT bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, i64 s, i64 ns) {
  if (!sim()) return true;
  struct timespec ts = {(time_t)s, (long)ns};
  return futex_wait_until(addr, val, has_timeout ? abs_to_deadline(&ts, CLOCK_MONOTONIC) : ~0ull) != ETIMEDOUT;
}
EXPORT void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void*, unsigned* addr) {
  if (!sim()) return;
  sync_point(16);
  wake_all(addr);
}
static long (*real_syscall)(long, ...);
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim() && n == SYS_futex) {
    int op = (int)b & 0x7f;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      u64 dl = ~0ull;
      const struct timespec* ts = (const struct timespec*)d;
      if (ts) dl = op == FUTEX_WAIT ? G.now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : abs_to_deadline(ts, (b & 256) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      int r = futex_wait_until((unsigned*)a, (unsigned)c, dl);
      if (r) { errno = r; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sync_point(16);
      long k = 0;
      while (k < c && wake_one((void*)a, B_FUTEX)) k++;
      return k;
    }
  }
  if (!real_syscall) real_syscall = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
  return real_syscall(n, a, b, c, d, e, f);
}

// ==================================================================== clocks
static int sys_clock_gettime(clockid_t c, struct timespec* ts) {
  long r;
  asm volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"((long)c), "S"(ts) : "rcx", "r11", "memory");
  return (int)r;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!sim()) return sys_clock_gettime(c, ts) ? -1 : 0;
  sync_point(17);
  bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
  clock_faults(wall ? CLOCK_REALTIME : CLOCK_MONOTONIC);
  u64 v = wall ? (u64)clock_now_wall() : clock_now_steady();
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
EXPORT time_t time(time_t* out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT int timespec_get(struct timespec* ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
static int (*real_nanosleep)(const struct timespec*, struct timespec*);
EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!sim()) return real(real_nanosleep, "nanosleep")(ts, rem);
  sleep_ns((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!sim()) return real(real_nanosleep, "nanosleep")(ts, rem) ? errno : 0;
  if (flags & TIMER_ABSTIME) { u64 d = abs_to_deadline(ts, c); sync_point(92); if (d > G.now) block(B_SLEEP, nullptr, d); }
  else sleep_ns((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
  return 0;
}
EXPORT int usleep(useconds_t us) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
EXPORT unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }

// ==================================================================== aborts
EXPORT void abort() {
  if (g_on || G.res) violation("abort", "abort() called");
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (G.res) violation("assert", "assertion failed: %s (%s:%u, %s)", e, f, l, fn ? fn : "?");
  fprintf(stderr, "assertion failed: %s (%s:%u, %s)\n", e, f, l, fn ? fn : "?");
  _exit(134);
}
namespace std { void __glibcxx_assert_fail(const char* f, int l, const char* fn, const char* c) __attribute__((noreturn, visibility("default"))); }
void std::__glibcxx_assert_fail(const char* f, int l, const char* fn, const char* c) {
  if (G.res) violation("assert", "libstdc++ precondition failed: %s (%s:%d, %s)", c ? c : "?", f ? f : "?", l, fn ? fn : "?");
  _exit(134);
}
EXPORT pid_t fork(void) {
  if (sim()) { errno = ENOSYS; return -1; }
  static pid_t (*rf)(void);
  if (!rf) rf = (pid_t (*)(void))dlsym(RTLD_NEXT, "fork");
  return rf();
}
EXPORT void exit(int c) {
  if (sim()) violation("exit", "exit(%d) called from inside a run", c);
  static void (*re)(int);
  if (!re) re = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  re(c);
  _exit(c);
}
