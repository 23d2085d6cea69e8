// dsim: deterministic simulator runtime for prometheus-cpp.
//
// One process = one simulated execution.  Every thread of the system under
// test is a real thread that is parked on a private futex; exactly one of them
// (the "baton holder") runs at any time and the seeded scheduler decides who
// is next.  Scheduling points are: every atomic operation, every mutex /
// condition variable / rwlock / once / futex / thread operation, every
// (simulated) socket operation, every clock read, and - through the compiler's
// thread-sanitizer instrumentation, whose runtime this library replaces -
// every plain memory access of the code under test.
//
// This header is free of STL templates on purpose: the runtime must not share
// template instantiations with the instrumented code.
#pragma once
#include <stddef.h>
#include <stdint.h>

namespace dsim {

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

enum Fault {
  F_CAS = 0,       // weak compare-exchange fails spuriously
  F_COND,          // spurious condition variable wake-up
  F_ALLOC,         // operator new fails
  F_THREAD,        // thread creation fails
  F_STEADY_JUMP,   // the monotonic clock jumps forward (suspend, VM pause)
  F_WALL_JUMP,     // the wall clock is stepped, forward or backward
  F_STALL,         // a thread is descheduled for a long simulated time
  F_NET_DELAY,     // non-default network latency of a segment
  F_NET_STALL,     // segment held back for a long time (partition + heal)
  F_NET_RST,       // connection reset
  F_NET_SHORT_SEND,
  F_NET_SHORT_RECV,
  F_NET_REFUSE,    // connection refused
  F_NET_BLACKHOLE, // connect() never answers
  F_DNS,           // name resolution fails or is slow
  F_ZLIB,          // deflateInit2 / deflate fails
  F_CURL_INIT,     // curl_global_init / curl_easy_init fails
  F_CURL_SLIST,    // curl_slist_append fails
  F_STREAM,        // output stream write error
  F_APP,           // application level fault decided by a scenario
  F_CHOICE,        // not a fault: which waiter is woken, wake order
  F_CURL_OPT,      // curl_easy_setopt fails
  F_MAX
};
extern const char* const fault_names[F_MAX];

enum Strategy { ST_RANDOM = 0, ST_PCT = 1, ST_RR = 2 };

struct SchedEntry { u64 step; u32 tid; u32 pad; };
struct FaultEntry { u32 kind; u32 occ; u64 val; };

enum { TRACE_SCHED_CAP = 400000, TRACE_FAULT_CAP = 100000, MSG_CAP = 16384, NPROBE = 64, NSTACK = 24 };

enum Status { S_RUNNING = 0, S_OK, S_VIOLATION, S_ERROR };

// Lives in memory shared with the supervising process.
struct Result {
  volatile int status;
  char cls[64];            // violation class
  char msg[MSG_CAP];
  int nstack[2];
  u64 stack[2][NSTACK];    // exe-relative pcs
  u64 steps;               // all scheduling points
  u64 sync_steps;
  u64 plain;               // plain accesses seen inside API calls
  u64 switches;
  u64 preempts;            // voluntary context switches
  u64 sim_ns;              // simulated time covered
  u64 log_hash;            // rolling hash over the event log
  u64 sched_hash;          // hash of the synchronisation order only
  u64 fault_fired[F_MAX];
  u64 fault_seen[F_MAX];   // opportunities
  u64 nthreads;
  u64 heap_used;
  u64 probes[NPROBE];
  u64 nsched, nfault;
  SchedEntry sched[TRACE_SCHED_CAP];
  FaultEntry fault[TRACE_FAULT_CAP];
};

struct RunCfg {
  u64 seed;
  int strategy;
  u32 p_sync_ppm;          // preemption probability at sync points
  u32 p_plain_ppm;         // preemption probability at plain accesses
  u32 pct_depth;           // number of priority change points
  u64 pct_horizon;         // steps over which they are spread
  u64 tick_ns;             // simulated time per sync step
  u32 fault_ppm[F_MAX];
  u32 fault_max[F_MAX];
  u64 max_sync;            // sync step limit
  u64 max_plain;           // plain access limit
  u64 max_sim_ns;
  u64 fair_after;          // after that many sync steps schedule fairly
  u64 net_base_ns;         // default latency
  u64 net_jitter_ns;       // upper bound of F_NET_DELAY
  u64 net_stall_ns;        // upper bound of F_NET_STALL
  u64 net_window;          // bytes in flight + unread per direction
  u64 stall_min_ns, stall_max_ns;
  bool race_detect;
  // replay
  bool replay;
  const SchedEntry* rsched; u64 nrsched;
  const FaultEntry* rfault; u64 nrfault;
};

// ---- supervising side
void init_once();                       // map the arenas (before fork)
// Runs root(arg) as the first simulated thread; never returns.
[[noreturn]] void run_child(const RunCfg& cfg, Result* res, void (*root)(void*), void* arg);

// ---- inside a run
extern bool g_on;                       // simulation active
void sim_off();                         // freeze scheduling: the rest runs natively on the current thread
[[noreturn]] void finish_ok();
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

u64 ev();                               // next global event sequence number
u64 cur_ev();
u64 now();                              // simulated monotonic ns
i64 wall_ns();                          // simulated wall clock, ns since epoch
u64 wall_jumps();                       // how often it was stepped so far
u64 steady_ns();                        // value the monotonic clock shows
int self();
int spawn(void (*fn)(void*), void* arg);
void join(int tid);
bool join_deadline(int tid, u64 deadline);
bool thread_done(int tid);
void sleep_ns(u64 ns);
void sleep_until(u64 t);
void yield_point();                     // an explicit scheduling point
void api_enter();
void api_exit();
int api_depth();
void no_faults(bool on);                // suppress fault injection for the calling thread
void arm_alloc(i64 nth);                // calling thread: fail the nth operator new from now (1 = next), -1 disarm
void gate_alloc_faults();              // threads of the libraries: allocations fail only ...
void open_alloc_faults();              // ... after this call on that thread and before it next sends or receives
bool alloc_gated();
bool alloc_fired();                     // did the armed failure fire?
bool fault(Fault k);                    // decide a fault with the configured rate
u64 fault_val(Fault k, u64 lo, u64 hi); // 0 = no fault, otherwise a value in [lo,hi] (lo>0)
u64 choose(u64 n);                      // scheduler choice, recorded (0 = default)
u64 fault_count(Fault k);               // how many were injected so far
void note_fault(Fault k);               // a fault that the harness injected itself
void set_fault(Fault k, u32 ppm, u32 maxn);
void clear_faults();                    // no network/time faults from now on
void jump_steady(u64 ns);
void jump_wall(i64 ns);
bool wall_possible(u64 t0, u64 t1, i64 sec);  // did the wall clock show that second at some instant of [t0,t1]?
void log_event(u64 a, u64 b);           // mixes into the log hash
void probe(int i);
void set_max_sim(u64 ns);
bool heap_is_live(const void* p);
u64 live_blocks();                      // allocations made inside API calls and not freed yet
u64 live_bytes();                       // their sizes
u64 thread_block_report(char* buf, u64 cap);
// semaphore-like primitive for harness code
void block_on(void* obj, u64 deadline); // blocks until wake_on(obj) or the deadline; 0 = none
void wake_on(void* obj);
// treat an opaque library object as a piece of memory for the race detector
void shadow_access(const void* p, bool write);
// ordering that the program under simulation would establish itself when one
// thread hands an object to another
void hb_release(const void* key);
void hb_acquire(const void* key);
u64 rnd(u64 n);                         // workload randomness inside a run (stream of its own)
u64 open_sim_fds();                       // without those accepted and never looked at since
u64 open_idle_fds();                      // those
bool net_port_bound(int port);
void net_reset_conn(int fd);              // abortive close (RST) of a simulated connection
u64 net_accept_backlog(int port);
u64 live_threads();                     // simulated threads that have not finished (excluding harness ones)

struct Api {
  Api() { api_enter(); }
  ~Api() { api_exit(); }
};

}  // namespace dsim
