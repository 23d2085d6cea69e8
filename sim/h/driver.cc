// Supervising side: seeded search over plans and schedules, determinism gate,
// minimisation, replay files.
#include <signal.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>

#include "h.h"

#ifdef DSIM_CURL
#include <curl/curl.h>
#endif

namespace h {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap; va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
std::string dstr(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
void check_leaks(const char* what) {
  u64 n = dsim::live_blocks();
  if (n) dsim::violation("leak", "%llu block(s) allocated inside library calls are still allocated after %s", (unsigned long long)n, what);
}

void gen_sched(Plan& p, Rng& r) {
  static const i64 ps[] = {1000, 10000, 50000, 150000, 300000, 600000, 1000000};
  static const i64 pp[] = {0, 0, 20, 200, 1000, 5000, 20000};
  switch (r.n(10)) {
    case 0: case 1: case 2: case 3: case 4:
      p.cfg["strategy"] = dsim::ST_RANDOM;
      p.cfg["p_sync"] = ps[r.n(7)];
      p.cfg["p_plain"] = pp[r.n(7)];
      break;
    case 5: case 6: case 7: case 8:
      p.cfg["strategy"] = dsim::ST_PCT;
      p.cfg["depth"] = 1 + (i64)r.n(6);
      p.cfg["horizon"] = (i64)1 << (6 + r.n(11));
      break;
    default:
      p.cfg["strategy"] = dsim::ST_RR;
  }
  static const i64 tick[] = {50, 200, 1000, 5000};
  p.cfg["tick"] = tick[r.n(4)];
}
}  // namespace h

using namespace h;
using dsim::Result;

static const Scenario* find_scen(const std::string& n) {
  for (auto& s : scenarios()) if (n == s.name) return &s;
  return nullptr;
}

enum : u64 { MAX_SYNC = 400000, MAX_PLAIN = 100000000 };
struct Trace { std::vector<dsim::SchedEntry> sched; std::vector<dsim::FaultEntry> fault; };

static dsim::RunCfg make_cfg(const Plan& p, u64 sched_seed) {
  dsim::RunCfg c;
  memset(&c, 0, sizeof c);
  c.seed = sched_seed;
  c.strategy = (int)p.get("strategy");
  c.p_sync_ppm = (u32)p.get("p_sync", 100000);
  c.p_plain_ppm = (u32)p.get("p_plain", 0);
  c.pct_depth = (u32)p.get("depth", 3);
  c.pct_horizon = (u64)p.get("horizon", 2000);
  c.tick_ns = (u64)p.get("tick", 200);
  for (int k = 0; k < dsim::F_MAX; k++) {
    c.fault_ppm[k] = (u32)p.get(fmt("f%d", k).c_str());
    c.fault_max[k] = (u32)p.get(fmt("m%d", k).c_str(), 1000000);
  }
  c.max_sync = (u64)p.get("max_sync", MAX_SYNC);
  c.max_plain = (u64)p.get("max_plain", MAX_PLAIN);
  c.max_sim_ns = (u64)p.get("max_sim_s", 4000000000ll) * 1000000000ull;
  c.fair_after = (u64)p.get("fair_after", 150000);
  c.net_base_ns = (u64)p.get("net_base", 100000);
  c.net_jitter_ns = (u64)p.get("net_jitter", 5000000);
  c.net_stall_ns = (u64)p.get("net_stall", 3000000000ll);
  c.net_window = (u64)p.get("net_window", 65536);
  c.stall_min_ns = (u64)p.get("stall_min", 1000);
  c.stall_max_ns = (u64)p.get("stall_max", 5000000000ll);
  c.race_detect = p.get("race", 1) != 0;
  return c;
}

static Result* new_result() {
  void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(99); }
  return (Result*)p;
}
static void reset_result(Result* r) { memset((void*)r, 0, offsetof(Result, sched)); }

struct RootArg { const Scenario* s; const Plan* p; };
static void root(void* a) {
  RootArg* r = (RootArg*)a;
  r->s->run(*r->p);
  dsim::finish_ok();
}


// Runs one plan in a forked child.  false: the child did not report (harness trouble)
static bool execute(const Plan& p, u64 sched_seed, const Trace* tr, Result* res) {
  const Scenario* s = find_scen(p.scen);
  if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scen.c_str()); exit(99); }
  reset_result(res);
  dsim::RunCfg c = make_cfg(p, sched_seed);
  if (tr) {
    c.replay = true;
    c.rsched = tr->sched.data(); c.nrsched = tr->sched.size();
    c.rfault = tr->fault.data(); c.nrfault = tr->fault.size();
  }
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {30, 40};
    setrlimit(RLIMIT_CPU, &rl);
    static RootArg ra;
    ra.s = s; ra.p = &p;
    dsim::run_child(c, res, root, &ra);
  }
  int st = 0;
  // real-time guard against trouble in the simulator itself
  struct timespec ts = {0, 200000};
  u64 waited = 0;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    nanosleep(&ts, nullptr);
    waited += 1;
    if (waited > 500000 || (waited > 2000 && ts.tv_nsec < 2000000 && (ts.tv_nsec = 2000000))) {
      if (waited > 100000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); res->status = dsim::S_ERROR; snprintf(res->msg, sizeof res->msg, "run did not end within its real-time guard"); return false; }
    }
  }
  if (res->status != dsim::S_OK && res->status != dsim::S_VIOLATION) {
    if (res->status != dsim::S_ERROR) snprintf(res->msg, sizeof res->msg, "run ended without a verdict (wait status %x)", st);
    res->status = dsim::S_ERROR;
    return false;
  }
  return true;
}

static Trace trace_of(const Result* r) {
  Trace t;
  t.sched.assign(r->sched, r->sched + std::min<u64>(r->nsched, dsim::TRACE_SCHED_CAP));
  t.fault.assign(r->fault, r->fault + std::min<u64>(r->nfault, dsim::TRACE_FAULT_CAP));
  return t;
}

// ---------------------------------------------------------------- plans
// "name!m": only memory and race violations count, "name!p": only those against
// progress; the others belong to properties that have their own checks.
static std::string scen_name(const std::string& s) { return s.substr(0, s.find('!')); }
static bool counts(const std::string& scen, const std::string& cls) {
  size_t b = scen.find('!');
  if (b == std::string::npos) return true;
  static const char* const progress[] = {"deadlock", "no-progress", "cpu-hang", "bad-unlock", "bad-wait"};
  bool p = false;
  for (auto c : progress) p |= cls == c;
  if (scen[b + 1] == 'p') return p;
  return !p && cls != "oracle";
}
static Plan make_plan(const std::string& scen0, u64 seed) {
  const std::string scen = scen_name(scen0);
  Plan p;
  p.scen = scen;
  p.seed = seed;
  Rng r(seed);
  r.next();
  gen_sched(p, r);
  find_scen(scen)->gen(p, r);
  return p;
}

// ---------------------------------------------------------------- replay files
static std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static void write_replay(const std::string& path, const std::string& prop, const Plan& p, u64 sseed, const Trace& t, const Result* r, const std::string& note) {
  std::ofstream o(path);
  o << "dsim-replay 1\nproperty " << prop << "\nscenario " << p.scen << "\nplanseed " << p.seed << "\nschedseed " << sseed << "\n";
  for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
  for (auto& x : p.ops) o << "op " << x.th << " " << x.k << " " << x.a << " " << x.b << " " << x.c << " " << hexd(x.x) << " " << hexd(x.y) << "\n";
  for (auto& s : t.fault) o << "fault " << s.kind << " " << s.occ << " " << s.val << "\n";
  for (auto& s : t.sched) o << "sched " << s.step << " " << s.tid << "\n";
  o << "class " << r->cls << "\nhash " << r->log_hash << "\nsteps " << r->steps << "\n";
  std::string m = r->msg;
  for (auto& ch : m) if (ch == '\n') ch = '|';
  o << "message " << m << "\n";
  o << "note " << note << "\n";
}
static bool read_replay(const std::string& path, std::string& prop, Plan& p, u64& sseed, Trace& t, std::string& cls, u64& hash) {
  std::ifstream in(path);
  std::string line;
  if (!std::getline(in, line) || line != "dsim-replay 1") return false;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "property") s >> prop;
    else if (k == "scenario") s >> p.scen;
    else if (k == "planseed") s >> p.seed;
    else if (k == "schedseed") s >> sseed;
    else if (k == "cfg") { std::string n; i64 v; s >> n >> v; p.cfg[n] = v; }
    else if (k == "op") {
      Op o; std::string x, y;
      s >> o.th >> o.k >> o.a >> o.b >> o.c >> x >> y;
      o.x = strtod(x.c_str(), nullptr); o.y = strtod(y.c_str(), nullptr);
      p.ops.push_back(o);
    } else if (k == "fault") { dsim::FaultEntry e; s >> e.kind >> e.occ >> e.val; t.fault.push_back(e); }
    else if (k == "sched") { dsim::SchedEntry e; e.pad = 0; s >> e.step >> e.tid; t.sched.push_back(e); }
    else if (k == "class") s >> cls;
    else if (k == "hash") s >> hash;
  }
  return true;
}

static void print_stack(const Result* r, std::string& out) {
  char exe[512];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  for (int s = 0; s < 2; s++) {
    if (!r->nstack[s]) continue;
    out += s ? "  conflicting access:\n" : "  at:\n";
    std::string cmd = "addr2line -Cfsp -e ";
    cmd += exe;
    for (int i = 0; i < r->nstack[s] && i < 14; i++) cmd += fmt(" %llx", (unsigned long long)(r->stack[s][i] - 1));
    cmd += " 2>/dev/null";
    FILE* f = popen(cmd.c_str(), "r");
    if (!f) continue;
    char b[1024];
    while (fgets(b, sizeof b, f)) {
      std::string l = b;
      if (l.size() > 220) l = l.substr(0, 200) + " ..." + l.substr(l.rfind(" at ") == std::string::npos ? l.size() - 1 : l.rfind(" at "));
      out += "    " + l;
    }
    pclose(f);
  }
}

// ---------------------------------------------------------------- statistics shared between workers
enum { HCAP = 1 << 23, NSCEN = 32 };
struct Shared {
  volatile u64 runs, ok, errors, violations, foreign;
  volatile u64 steps, sync, plain, switches, preempts, sim_ms, det_checked, det_bad, threads;
  volatile u64 fired[dsim::F_MAX], seen[dsim::F_MAX];
  volatile u64 scen_runs[NSCEN];
  volatile u64 top_sync[NSCEN], top_plain[NSCEN];   // largest share of the budget a run used, per mille
  volatile u64 probes[NSCEN][dsim::NPROBE];
  volatile u64 nh;
  volatile int found;
  char errmsg[2048];
  u64 hashes[HCAP];
  u64 nthashes[HCAP];
  volatile u64 nnt;
  u64 ophashes[HCAP];
};

static u64 wall_ms() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000; }
static u64 mixs(u64 a, u64 b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL)); r.next(); return r.next(); }

static bool same_failure(const Result* r, const std::string& cls) { return r->status == dsim::S_VIOLATION && cls == r->cls; }

// Reduce the operations, then the faults, then the schedule, keeping the violation class.
static void minimise(Plan& plan, u64& sseed, Trace& tr, const std::string& cls, Result* res, u64 deadline, u64* tried) {
  auto attempt = [&](const Plan& cand, Trace& out, u64& oseed) {
    // same schedule first, then a search over other seeded schedules of the smaller plan
    for (u64 k = 0; k < 40; k++) {
      if (wall_ms() > deadline) return false;
      u64 s = k == 0 ? sseed : mixs(sseed, k * 7919 + cand.ops.size());
      (*tried)++;
      if (!execute(cand, s, nullptr, res)) continue;
      if (same_failure(res, cls)) { out = trace_of(res); oseed = s; return true; }
    }
    return false;
  };
  size_t chunk = plan.ops.size() / 2;
  while (chunk >= 1 && wall_ms() < deadline) {
    bool any = false;
    for (size_t i = 0; i + 1 <= plan.ops.size() && wall_ms() < deadline;) {
      Plan cand = plan;
      size_t e = std::min(plan.ops.size(), i + chunk);
      cand.ops.erase(cand.ops.begin() + i, cand.ops.begin() + e);
      Trace t; u64 s;
      if (attempt(cand, t, s)) { plan = cand; tr = t; sseed = s; any = true; }
      else i += chunk;
    }
    if (!any || chunk > 1) chunk /= 2;
    if (chunk == 0 && any) chunk = 0;
  }
  // faults
  {
    Trace base = tr;
    for (size_t i = 0; i < base.fault.size() && wall_ms() < deadline;) {
      Trace c = base;
      c.fault.erase(c.fault.begin() + i);
      (*tried)++;
      if (execute(plan, sseed, &c, res) && same_failure(res, cls)) base = trace_of(res).fault.size() <= c.fault.size() ? trace_of(res) : c;
      else i++;
    }
    tr = base;
  }
  // schedule: drop chunks of context switches
  {
    size_t ch = std::max<size_t>(1, tr.sched.size() / 2);
    while (wall_ms() < deadline && !tr.sched.empty()) {
      bool any = false;
      for (size_t i = 0; i < tr.sched.size() && wall_ms() < deadline;) {
        Trace c = tr;
        size_t e = std::min(c.sched.size(), i + ch);
        c.sched.erase(c.sched.begin() + i, c.sched.begin() + e);
        (*tried)++;
        if (execute(plan, sseed, &c, res) && same_failure(res, cls)) {
          Trace n = trace_of(res);
          if (n.sched.size() < tr.sched.size()) { tr = n; any = true; continue; }
        }
        i += ch;
      }
      if (ch == 1 && !any) break;
      if (!any) ch = std::max<size_t>(1, ch / 2);
    }
  }
}

struct Opt {
  std::string mode, prop, scens, out, file;
  u64 seed = 1, runs = ~0ull, time_ms = 30000, from = 0;
  int workers = 8, dup_every = 16;
  u64 min_ms = 60000;
};

static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  std::string cur;
  for (char ch : s) { if (ch == c) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) v.push_back(cur);
  return v;
}
static u64 hash_str(const std::string& s) { u64 v = 1469598103934665603ull; for (char c : s) { v ^= (unsigned char)c; v *= 1099511628211ull; } return v; }

static void worker(int w, const Opt& o, const std::vector<std::string>& sc, Shared* sh, u64 t0) {
  cpu_set_t set, cur;
  CPU_ZERO(&set);
  sched_getaffinity(0, sizeof cur, &cur);
  int want = w % CPU_COUNT(&cur), k = 0;
  for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cur) && k++ == want) { CPU_SET(i, &set); break; }
  sched_setaffinity(0, sizeof set, &set);
  Result* res = new_result();
  for (u64 i = w; i < o.runs; i += o.workers) {
    if (wall_ms() - t0 > o.time_ms || sh->found) break;
    u64 idx = o.from + i;
    u64 seed = mixs(o.seed ^ hash_str(o.prop), idx);
    size_t si = idx % sc.size();
    Plan p = make_plan(sc[si], seed);
    u64 sseed = mixs(seed, 77);
    bool okrun = execute(p, sseed, nullptr, res);
    __sync_fetch_and_add(&sh->runs, 1);
    if (!okrun) {
      // harness trouble is reported, never swallowed
      if (__sync_fetch_and_add(&sh->errors, 1) == 0) snprintf(sh->errmsg, sizeof sh->errmsg, "scenario %s index %llu seed %llu: %s", p.scen.c_str(), (unsigned long long)idx, (unsigned long long)seed, res->msg);
      continue;
    }
    __sync_fetch_and_add(&sh->steps, res->steps);
    __sync_fetch_and_add(&sh->sync, res->sync_steps);
    __sync_fetch_and_add(&sh->plain, res->plain);
    __sync_fetch_and_add(&sh->switches, res->switches);
    __sync_fetch_and_add(&sh->preempts, res->preempts);
    __sync_fetch_and_add(&sh->threads, res->nthreads);
    __sync_fetch_and_add(&sh->sim_ms, res->sim_ns / 1000000);
    for (int f = 0; f < dsim::F_MAX; f++) { __sync_fetch_and_add(&sh->fired[f], res->fault_fired[f]); __sync_fetch_and_add(&sh->seen[f], res->fault_seen[f]); }
    __sync_fetch_and_add(&sh->scen_runs[si], 1);
    if (res->status != dsim::S_VIOLATION) {
      u64 a = res->sync_steps * 1000 / (u64)p.get("max_sync", MAX_SYNC), b = res->plain * 1000 / (u64)p.get("max_plain", MAX_PLAIN);
      for (u64 o; (o = sh->top_sync[si]) < a && !__sync_bool_compare_and_swap(&sh->top_sync[si], o, a);) {}
      for (u64 o; (o = sh->top_plain[si]) < b && !__sync_bool_compare_and_swap(&sh->top_plain[si], o, b);) {}
    }
    for (int f = 0; f < dsim::NPROBE; f++) if (res->probes[f]) __sync_fetch_and_add(&sh->probes[si][f], res->probes[f]);
    u64 hi = __sync_fetch_and_add(&sh->nh, 1);
    if (hi < HCAP) { sh->hashes[hi] = res->sched_hash ^ hash_str(p.scen); sh->ophashes[hi] = res->log_hash; }
    u64 nf = 0;
    for (int f = 0; f < dsim::F_CHOICE; f++) nf += res->fault_fired[f];
    if (res->preempts || nf) { u64 ni = __sync_fetch_and_add(&sh->nnt, 1); if (ni < HCAP) sh->nthashes[ni] = res->sched_hash ^ hash_str(p.scen); }
    u64 lh = res->log_hash, stp = res->steps;
    int status = res->status;
    std::string cls = res->cls;
    bool dup = status == dsim::S_VIOLATION || (o.dup_every && (i / o.workers) % o.dup_every == 0);
    if (dup) {
      Trace t = trace_of(res);
      bool trunc = res->nsched > dsim::TRACE_SCHED_CAP || res->nfault > dsim::TRACE_FAULT_CAP;
      __sync_fetch_and_add(&sh->det_checked, 1);
      const char* phase = "second execution";
      bool good = execute(p, sseed, nullptr, res) && res->log_hash == lh && res->steps == stp && res->status == status && cls == res->cls;
      if (good && !trunc) phase = "replay", good = execute(p, sseed, &t, res) && res->log_hash == lh && res->steps == stp && res->status == status && cls == res->cls;
      if (!good) {
        if (__sync_fetch_and_add(&sh->det_bad, 1) == 0) snprintf(sh->errmsg, sizeof sh->errmsg, "run is not repeatable: scenario %s index %llu seed %llu: %s differs, steps %llu/%llu status %d/%d hash %llx/%llx (%s)", p.scen.c_str(), (unsigned long long)idx, (unsigned long long)seed, phase,
                                                                (unsigned long long)stp, (unsigned long long)res->steps, status, res->status, (unsigned long long)lh, (unsigned long long)res->log_hash, res->msg);
        continue;
      }
      if (status == dsim::S_VIOLATION && !counts(sc[si], cls)) { __sync_fetch_and_add(&sh->foreign, 1); continue; }
      if (status == dsim::S_VIOLATION) {
        if (__sync_fetch_and_add(&sh->violations, 1) == 0) {
          sh->found = 1;
          u64 tried = 0;
          size_t ops0 = p.ops.size(), s0 = t.sched.size(), f0 = t.fault.size();
          Plan mp = p; u64 ms = sseed; Trace mt = t;
          minimise(mp, ms, mt, cls, res, wall_ms() + o.min_ms, &tried);
          // the final, canonical execution is the replay of the minimised trace
          bool fin = execute(mp, ms, &mt, res) && same_failure(res, cls);
          if (!fin) { mp = p; ms = sseed; mt = t; fin = execute(mp, ms, &mt, res) && same_failure(res, cls); }
          std::string note = fmt("found by run index %llu (seed %llu); minimised from %zu ops, %zu context switches, %zu faults to %zu, %zu, %zu in %llu runs",
                                 (unsigned long long)idx, (unsigned long long)seed, ops0, s0, f0, mp.ops.size(), mt.sched.size(), mt.fault.size(), (unsigned long long)tried);
          write_replay(o.file, o.prop, mp, ms, mt, res, note);
        }
        break;
      }
    }
  }
  _exit(0);
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += fmt("\\u%04x", c); else o += c; }
  return o + "\"";
}

static int do_search(const Opt& o) {
  auto sc = split(o.scens, ',');
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 t0 = wall_ms();
  std::vector<pid_t> pids;
  for (int w = 0; w < o.workers; w++) {
    pid_t p = fork();
    if (p == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      worker(w, o, sc, sh, t0);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  u64 el = wall_ms() - t0;
  u64 nh = std::min<u64>((u64)sh->nh, HCAP);
  std::sort(sh->hashes, sh->hashes + nh);
  u64 distinct = std::unique(sh->hashes, sh->hashes + nh) - sh->hashes;
  std::sort(sh->ophashes, sh->ophashes + nh);
  u64 distinct2 = std::unique(sh->ophashes, sh->ophashes + nh) - sh->ophashes;
  u64 nnt = std::min<u64>((u64)sh->nnt, HCAP);
  std::sort(sh->nthashes, sh->nthashes + nnt);
  u64 distinct3 = std::unique(sh->nthashes, sh->nthashes + nnt) - sh->nthashes;
  std::ofstream js(o.out);
  js << "{\"property\":" << jstr(o.prop) << ",\"seed\":" << o.seed << ",\"runs\":" << sh->runs << ",\"errors\":" << sh->errors << ",\"violations\":" << sh->violations << ",\"runs_ended_by_another_property\":" << sh->foreign
     << ",\"elapsed_ms\":" << el << ",\"steps\":" << sh->steps << ",\"sync_steps\":" << sh->sync << ",\"plain_accesses\":" << sh->plain << ",\"switches\":" << sh->switches
     << ",\"preemptions\":" << sh->preempts << ",\"threads\":" << sh->threads << ",\"sim_ms\":" << sh->sim_ms << ",\"distinct_interleavings\":" << distinct << ",\"distinct_interleavings_nontrivial\":" << distinct3 << ",\"distinct_executions\":" << distinct2
     << ",\"determinism_checked\":" << sh->det_checked << ",\"determinism_bad\":" << sh->det_bad << ",\"workers\":" << o.workers << ",\"error\":" << jstr(sh->errmsg);
  js << ",\"faults\":{";
  bool first = true;
  for (int f = 0; f < dsim::F_MAX; f++) if (sh->seen[f] || sh->fired[f]) { js << (first ? "" : ",") << jstr(dsim::fault_names[f]) << ":{\"fired\":" << sh->fired[f] << ",\"opportunities\":" << sh->seen[f] << "}"; first = false; }
  js << "},\"scenarios\":[";
  for (size_t i = 0; i < sc.size(); i++) {
    const Scenario* s = find_scen(scen_name(sc[i]));
    js << (i ? "," : "") << "{\"name\":" << jstr(sc[i]) << ",\"runs\":" << sh->scen_runs[i] << ",\"budget_used_at_most_permille\":{\"synchronisation_steps\":" << sh->top_sync[i] << ",\"memory_accesses\":" << sh->top_plain[i] << "}" << ",\"real\":" << jstr(s->real) << ",\"stub\":" << jstr(s->stub) << ",\"probes\":{";
    bool fp = true;
    for (int k = 0; s->probes && s->probes[k]; k++) if (s->probes[k][0] != 0x2d) js << (fp ? (fp = false, "") : ",") << jstr(s->probes[k]) << ":" << sh->probes[i][k];
    js << "}}";
  }
  js << "]}\n";
  js.close();
  if (sh->errors || sh->det_bad) fprintf(stderr, "dsim: %s\n", sh->errmsg);
  if (sh->violations) return 1;
  if (sh->errors || sh->det_bad) return 2;
  return 0;
}

static int do_replay(const Opt& o) {
  Plan p; Trace t; std::string prop, cls; u64 ss = 0, hash = 0;
  if (!read_replay(o.file, prop, p, ss, t, cls, hash)) { fprintf(stderr, "cannot read %s\n", o.file.c_str()); return 2; }
  Result* res = new_result();
  int fd = dup(1), nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  bool ok = execute(p, ss, &t, res);
  fflush(stdout);
  dup2(fd, 1);
  if (!ok) { printf("replay: no verdict: %s\n", res->msg); return 2; }
  if (res->status == dsim::S_OK) { printf("replay: property held\n"); return 0; }
  std::string st;
  print_stack(res, st);
  printf("replay: %s: %s\n%s", res->cls, res->msg, st.c_str());
  bool same = cls == res->cls && hash == res->log_hash;
  printf("replay: %s\n", same ? "identical to the recorded execution" : "differs from the recorded execution");
  return same ? 1 : 3;
}

static int do_one(const Opt& o) {
  u64 seed = mixs(o.seed ^ hash_str(o.prop), o.from);
  Plan p = make_plan(o.scens, seed);
  Result* res = new_result();
  bool ok = execute(p, mixs(seed, 77), nullptr, res);
  printf("ok=%d status=%d cls=%s msg=%s\nsteps=%llu sync=%llu plain=%llu sw=%llu thr=%llu sim=%.3fs hash=%llx heap=%llu\n", ok, res->status, res->cls, res->msg, (unsigned long long)res->steps, (unsigned long long)res->sync_steps,
         (unsigned long long)res->plain, (unsigned long long)res->switches, (unsigned long long)res->nthreads, res->sim_ns / 1e9, (unsigned long long)res->log_hash, (unsigned long long)res->heap_used);
  for (auto& c : p.cfg) printf("%s=%lld ", c.first.c_str(), (long long)c.second);
  printf("\n");
  for (auto& x : p.ops) printf("  op th=%d k=%d a=%lld b=%lld c=%lld x=%g y=%g\n", x.th, x.k, (long long)x.a, (long long)x.b, (long long)x.c, x.x, x.y);
  std::string st;
  print_stack(res, st);
  printf("%s", st.c_str());
  u64 lh = res->log_hash, stp = res->steps;
  Trace t = trace_of(res);
  fflush(stdout);
  bool same = execute(p, mixs(seed, 77), &t, res) && res->log_hash == lh && res->steps == stp;
  printf("replay of the trace: %s (%llu steps)\n", same ? "identical" : "differs", (unsigned long long)res->steps);
  return 0;
}

int main(int argc, char** argv) {
  if (!getenv("DSIM_REEXEC")) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("DSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  Opt o;
  o.mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") o.prop = v;
    else if (k == "--scen") o.scens = v;
    else if (k == "--out") o.out = v;
    else if (k == "--file") o.file = v;
    else if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--runs") o.runs = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--time") o.time_ms = strtoull(v.c_str(), nullptr, 10) * 1000;
    else if (k == "--from") o.from = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--workers") o.workers = atoi(v.c_str());
    else if (k == "--dup") o.dup_every = atoi(v.c_str());
    else if (k == "--min") o.min_ms = strtoull(v.c_str(), nullptr, 10) * 1000;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  dsim::init_once();
#ifdef DSIM_CURL
  curl_global_init(CURL_GLOBAL_ALL);
#endif
  if (o.mode == "search") return do_search(o);
  if (o.mode == "replay") return do_replay(o);
  if (o.mode == "one") return do_one(o);
  if (o.mode == "list") { for (auto& s : scenarios()) printf("%s\n", s.name); return 0; }
  fprintf(stderr, "usage: dsim search|replay|one|list ...\n");
  return 2;
}
