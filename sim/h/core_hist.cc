// C02: histograms.
#include "h.h"
#include <limits>
#include <prometheus/family.h>
#include <prometheus/histogram.h>
#include <prometheus/registry.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { OBS, MULTI, BAD, RESET, COLLECT };
const char* const names[] = {"Observe", "ObserveMultiple", "ObserveMultiple(wrong size)", "Reset", "Collect"};
const double INF = std::numeric_limits<double>::infinity();

std::vector<double> bounds(i64 id) {
  switch (id) {
    case 0: return {};
    case 1: return {0};
    case 2: return {1, 2};
    case 3: return {-8, -1, 0, 1, 8};
    case 4: return {0.5, 1, 2.5, 5, 10, 25, 50};
    case 5: return {-1e300, 0, 1e300};
    case 6: return {1, INF};
    case 7: { std::vector<double> v; for (int i = 0; i < 24; i++) v.push_back(i * 4); return v; }
    case 8: return {0, std::numeric_limits<double>::denorm_min(), 1};
    case 9: return {-INF, 0, 16};
    default: { std::vector<double> v; for (int i = 0; i < (int)id * 7; i++) v.push_back((i - 20) * 0.1); return v; }
  }
}

void gen(Plan& p, Rng& r) {
  i64 id = (i64)r.n(r.pct(15) ? 20 : 10);
  auto b = bounds(id);
  p.cfg["bounds"] = id;
  p.cfg["via"] = r.n(4);
  int th = 2 + (int)r.n(3), total = 4 + (int)r.n(16);
  u32 rd = (u32)r.of<int>({20, 40, 60}), mu = (u32)r.of<int>({0, 30, 60}), rs = (u32)r.of<int>({0, 10, 30});
  bool neg = r.pct(40), inf = r.pct(10), big = id == 5 && r.pct(50), huge = r.pct(15);
  double u = 64;
  bool two = r.pct(25);   // two objects, used by the same threads
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th);
    if (r.pct(rd)) { p.add(t, COLLECT); continue; }
    if (r.pct(rs)) { p.add(t, RESET); continue; }
    if (r.pct(mu)) {
      if (r.pct(20)) { p.add(t, BAD, r.of<i64>({(i64)b.size(), (i64)b.size() + 2, 0}), 0, 0, u); continue; }
      // increments: one number per bucket derived from a
      u *= 2;
      p.add(t, MULTI, (i64)r.next() & 0x7fffffff, huge && r.pct(50), 0, neg && r.pct(60) ? (r.pct(30) ? 0 : -u) : u);
      continue;
    }
    double x;
    switch (r.n(5)) {
      case 0: case 1: x = b.empty() ? 3 : b[r.n(b.size())]; break;
      case 2: x = b.empty() ? 1 : std::nextafter(b[r.n(b.size())], r.pct(50) ? INF : -INF); break;
      case 3: x = r.in(-40, 100); break;
      default: x = u *= 2;
    }
    if (!inf && std::isinf(x)) x = 3;
    if (!big && std::fabs(x) > 1e17) x = 4;
    if (x != 0 && std::fabs(x) < 1e-9 && r.pct(50)) x = 0.25;
    p.add(t, OBS, 0, 0, 0, x);
  }
  if (two) for (auto& o : p.ops) o.c = (i64)r.n(2);
  if (r.pct(50)) set_fault(p, dsim::F_CAS, r.of<i64>({100000, 950000}), r.pct(25) ? 1000 : 10);
  if (r.pct(20)) set_fault(p, dsim::F_STALL, 20000, 3);
}

std::vector<double> increments(const Op& o, size_t n) {
  std::vector<double> v(n);
  Rng r((u64)o.a * 2654435761u + 1);
  for (auto& d : v) d = r.pct(50) ? 0 : o.b ? (double)(1ll << (20 + r.n(24))) + (double)r.n(3) : (double)(1 + r.n(3));
  return v;
}

struct M { std::vector<u64> n; double sum; };

void run(const Plan& p) {
  auto b = bounds(p.get("bounds"));
  i64 via = p.get("via");
  Histogram* hgs[2];
  for (auto& hg : hgs)
  if (via == 0) hg = new Histogram(b);
  else if (via == 1) hg = new Histogram(std::vector<double>(b));
  else if (via == 2) hg = &(new Family<Histogram>("h", "", {}))->Add({}, b);
  else hg = &BuildHistogram().Name("h").Register(*new Registry).Add({{"l", "v"}}, b);
  // the boundaries the snapshots must show
  std::vector<double> ub = b;
  ub.push_back(INF);
  auto body = [&](const Op& o, Rec& r) {
    Histogram* hg = hgs[o.c];
    switch (o.k) {
      case OBS: { API; hg->Observe(o.x); break; }
      case MULTI: { auto v = increments(o, b.size() + 1); API; hg->ObserveMultiple(v, o.x); break; }
      case BAD: {
        std::vector<double> v((size_t)o.a, 1.0);
        API;
        try { hg->ObserveMultiple(v, o.x); } catch (const std::length_error&) { r.failed = true; }
        catch (const std::exception&) { r.failed = true; }
        if (!r.failed) fail(fmt("ObserveMultiple accepted %lld increments for %zu buckets", (long long)o.a, b.size() + 1));
        break;
      }
      case RESET: { API; hg->Reset(); break; }
      case COLLECT: {
        ClientMetric m;
        { API; m = hg->Collect(); end(r); }
        r.r = m.histogram.sample_sum; r.ri = (i64)m.histogram.sample_count;
        std::vector<double> got;
        for (auto& k : m.histogram.bucket) { got.push_back(k.upper_bound); r.rv.push_back((double)k.cumulative_count); }
        // an implementation may leave the +Inf bucket to the reader only by contract; here it is part of the contract
        require(got == ub, "a snapshot shows the wrong bucket boundaries");
        break;
      }
    }
  };
  auto hist = run_plan(p, body);
  Op fin{99, COLLECT, 0, 0, 0, 0, 0};
  for (int k = 0; k < 2; k++) { fin.c = k; Rec r = begin(fin); body(fin, r); hist.push_back(r); }
  dsim::sim_off();
  if (overlaps(hist)) dsim::probe(0);
  size_t nb = ub.size();
  auto step = [&](const M& m, const Rec& r, std::vector<M>& out) {
    M n = m;
    switch (r.k) {
      case OBS: {
        size_t i = 0;
        while (i + 1 < nb && !(r.x <= b[i])) i++;
        n.n[i]++; n.sum += r.x;
        break;
      }
      case MULTI: {
        Op o{0, 0, r.a, r.b, r.c, r.x, r.y};
        auto v = increments(o, nb);
        for (size_t i = 0; i < nb; i++) n.n[i] += (u64)v[i];
        n.sum += r.x;
        break;
      }
      case RESET: n.n.assign(nb, 0); n.sum = 0; break;
      case COLLECT: {
        u64 c = 0;
        for (size_t i = 0; i < nb; i++) { c += m.n[i]; if ((double)c != r.rv[i]) return; }
        if ((i64)c != r.ri || !same(m.sum, r.r)) return;
        break;
      }
      default: break;
    }
    out.push_back(n);
  };
  M init{std::vector<u64>(nb, 0), 0};
  const auto both = hist;
  for (i64 which = 0; which < 2; which++) {
  hist.clear();
  for (auto& x : both) if (x.c == which) hist.push_back(x);
  int l = linearizable(hist, init, step, [](const M& m) { return std::string((const char*)m.n.data(), m.n.size() * 8) + std::string((const char*)&m.sum, 8); });
  if (l < 0) dsim::probe(1);
  require(l != 0, "no order of the calls explains the snapshots of the histogram" + show(hist, names));
  }
}
const char* const probes[] = {"overlapping_calls", "search_budget_exceeded", nullptr};
Reg r_({"hist", gen, run, probes, "Histogram, Counter, Gauge, Family, Registry (instrumented C++)", "scheduler, mutex, weak compare-and-swap outcome"});
}  // namespace
