// Harness: plans, scenario registry, simulated client threads, histories and
// the linearizability checker.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include "../rt/dsim.h"

namespace h {
using dsim::i64;
using dsim::u32;
using dsim::u64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64 n(u64 k) { return k ? next() % k : 0; }
  i64 in(i64 lo, i64 hi) { return lo + (i64)n((u64)(hi - lo + 1)); }
  bool pct(u32 p) { return n(100) < p; }
  template <class T> const T& of(const std::vector<T>& v) { return v[n(v.size())]; }
};

// Names from every part of the permitted alphabets, with a liking for their ends.
inline std::string a_name(u64 seed, bool metric) {
  static const char all[] = "abyzABYZ_019:";
  Rng r(seed * 2654435761u + 17);
  std::string s;
  u64 len = 1 + r.n(8);
  for (u64 i = 0; i < len; i++) {
    char c;
    do {
      if (r.pct(70)) c = all[r.n(sizeof all - 1)];
      else c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[r.n(63)];
    } while ((c == ':' && !metric) || (i == 0 && c >= '0' && c <= '9') || (i == 1 && c == '_' && s[0] == '_'));
    s += c;
  }
  return s;
}
// What no name may contain: the neighbours of the permitted ranges and others.
inline std::string bad_char(i64 k, bool metric) {
  static const char* const bad[] = {"/", "@", "[", "`", "{", ";", " ", "-", ".", "^", "\xff", "\xc3\xa9", "\n", "\"", "\x01", "\x80"};
  if (!metric && k % 5 == 0) return ":";
  if (k % 17 == 16) return std::string(1, '\0');
  return bad[k % 16];
}

struct Op {
  int th, k;
  i64 a, b, c;
  double x, y;
};

struct Plan {
  std::string scen;
  u64 seed = 0;
  std::map<std::string, i64> cfg;
  std::vector<Op> ops;
  i64 get(const char* k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  void add(int th, int k, i64 a = 0, i64 b = 0, i64 c = 0, double x = 0, double y = 0) { ops.push_back(Op{th, k, a, b, c, x, y}); }
  int threads() const { int m = 0; for (auto& o : ops) if (o.th + 1 > m) m = o.th + 1; return m; }
  std::vector<Op> of(int th) const { std::vector<Op> r; for (auto& o : ops) if (o.th == th) r.push_back(o); return r; }
};

struct Scenario {
  const char* name;
  void (*gen)(Plan&, Rng&);
  void (*run)(const Plan&);     // root thread of the simulated execution
  const char* const* probes;    // names of the reach probes, null terminated
  const char* real;             // components that run real code
  const char* stub;             // components that are simulated
};
std::vector<Scenario>& scenarios();
struct Reg { explicit Reg(const Scenario& s) { scenarios().push_back(s); } };

// default schedule / fault settings, randomised per run (swarm style)
void gen_sched(Plan& p, Rng& r);
inline void set_fault(Plan& p, dsim::Fault k, i64 ppm, i64 maxn) {
  char b[32];
  snprintf(b, sizeof b, "f%d", (int)k); p.cfg[b] = ppm;
  snprintf(b, sizeof b, "m%d", (int)k); p.cfg[b] = maxn;
}

// ---- simulated client threads
struct Team {
  struct Body { std::function<void()> f; };
  std::vector<std::unique_ptr<Body>> bodies;
  std::vector<int> ids;
  static void enter(void* p) { static_cast<Body*>(p)->f(); }
  int go(std::function<void()> f) {
    bodies.emplace_back(new Body{std::move(f)});
    ids.push_back(dsim::spawn(&Team::enter, bodies.back().get()));
    return ids.back();
  }
  void join() { for (int i : ids) dsim::join(i); }
  // false: some thread has not finished by that simulated time
  bool join_until(u64 t) { for (int i : ids) if (!dsim::join_deadline(i, t)) return false; return true; }
};

struct Rec {
  int th, k;
  i64 a, b, c;
  double x, y;
  u64 inv, ret;          // global event numbers
  u64 t_inv, t_ret;      // simulated monotonic time
  bool failed;           // ended with an exception; no effect expected
  double r;              // result
  i64 ri;
  std::vector<double> rv;
  std::string rs;
};

// One history per thread, merged when all threads have been joined.
struct History {
  std::vector<std::vector<Rec>> per;
  explicit History(int n) : per(n) { for (auto& v : per) v.reserve(64); }
  std::vector<Rec> all() const { std::vector<Rec> r; for (auto& v : per) r.insert(r.end(), v.begin(), v.end()); return r; }
};
inline Rec begin(const Op& o) {
  Rec r;
  r.th = o.th; r.k = o.k; r.a = o.a; r.b = o.b; r.c = o.c; r.x = o.x; r.y = o.y;
  r.failed = false; r.r = 0; r.ri = 0;
  r.t_inv = dsim::now();
  r.inv = dsim::ev();
  r.ret = r.t_ret = 0;
  return r;
}
inline void end(Rec& r) { r.ret = dsim::ev(); r.t_ret = dsim::now(); dsim::log_event(r.inv, r.ret); }

// ---- Wing & Gong / Lowe linearizability search
// M: copyable state; step(M, Rec, out): all legal successor states; key(M): identity
template <class M, class Step, class Key>
int linearizable(const std::vector<Rec>& hist, const M& init, Step step, Key key) {
  const int n = (int)hist.size();
  if (n == 0) return 1;
  if (n > 62) return -1;
  const u64 full = (1ull << n) - 1;
  struct Node { u64 mask; M st; };
  std::vector<Node> stack;
  std::unordered_set<std::string> seen;
  stack.push_back(Node{0, init});
  u64 budget = 400000;
  std::vector<M> out;
  while (!stack.empty()) {
    if (!budget--) return -1;
    Node nd = stack.back();
    stack.pop_back();
    if (nd.mask == full) return 1;
    u64 min_ret = ~0ull;
    for (int i = 0; i < n; i++) if (!(nd.mask >> i & 1) && hist[i].ret < min_ret) min_ret = hist[i].ret;
    for (int i = 0; i < n; i++) {
      if (nd.mask >> i & 1 || hist[i].inv > min_ret) continue;
      out.clear();
      step(nd.st, hist[i], out);
      for (auto& m : out) {
        u64 mk = nd.mask | 1ull << i;
        if (mk == full) return 1;
        std::string k(reinterpret_cast<const char*>(&mk), sizeof mk);
        k += key(m);
        if (seen.insert(k).second) stack.push_back(Node{mk, m});
      }
    }
  }
  return 0;
}

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
// exact decimal rendering used in messages
std::string dstr(double v);
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

[[noreturn]] inline void fail(const std::string& m) { dsim::violation("oracle", "%s", m.c_str()); }
inline void require(bool c, const std::string& m) { if (!c) fail(m); }
// all memory taken inside API calls has been given back
void check_leaks(const char* what);
}  // namespace h

#define API dsim::Api api_guard_

// ---- running the plan's threads
namespace h {
// Runs body(op, rec) for every op of every thread of the plan, each thread in
// its own simulated thread, and returns the merged history.
template <class F>
std::vector<Rec> run_plan(const Plan& p, F body) {
  int n = p.threads();
  History hist(n);
  {
    Team t;
    for (int i = 0; i < n; i++)
      t.go([&, i]() {
        for (const Op& o : p.ops)
          if (o.th == i) {
            Rec r = begin(o);
            body(o, r);
            if (!r.ret) end(r);
            hist.per[i].push_back(r);
          }
      });
    t.join();
  }
  return hist.all();
}
inline std::string show(const std::vector<Rec>& hist, const char* const* names) {
  std::string s;
  for (auto& r : hist) {
    s += fmt("\n  T%d [%llu,%llu] %s(a=%lld b=%lld x=%s)%s -> %s", r.th, (unsigned long long)r.inv, (unsigned long long)r.ret, names ? names[r.k] : std::to_string(r.k).c_str(), (long long)r.a, (long long)r.b,
             dstr(r.x).c_str(), r.failed ? " failed" : "", dstr(r.r).c_str());
    if (!r.rs.empty()) s += " " + r.rs;
    if (!r.rv.empty()) { s += " ["; for (double d : r.rv) s += dstr(d) + " "; s += "]"; }
  }
  return s;
}
inline u64 overlaps(const std::vector<Rec>& h) {
  u64 n = 0;
  for (size_t i = 0; i < h.size(); i++) for (size_t j = i + 1; j < h.size(); j++) if (h[i].th != h[j].th && h[i].inv < h[j].ret && h[j].inv < h[i].ret) n++;
  return n;
}
}  // namespace h
