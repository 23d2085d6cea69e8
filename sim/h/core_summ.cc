// C03, C04, C05: summaries.
#include "h.h"
#include <algorithm>
#include <limits>
#include <prometheus/family.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { OBS, COLLECT, SLEEP, STEPWALL, JUMP, BURST };
const char* const names[] = {"Observe", "Collect", "sleep", "wall clock step", "monotonic jump", "Observe burst"};

Summary::Quantiles quantiles(i64 id) {
  typedef detail::CKMSQuantiles::Quantile Q;
  switch (id) {
    case 0: return {};
    case 1: return {Q{0.5, 0.05}};
    case 2: return {Q{0.99, 0.001}, Q{0.5, 0.05}, Q{0.9, 0.01}};
    case 3: return {Q{0.01, 0.001}, Q{0.5, 0.01}, Q{0.99, 0.001}};
    case 4: return {Q{0.5, 0.0}, Q{0.9, 0.0}};
    case 5: return {Q{0.9, 0.01}, Q{0.1, 0.01}};
    case 6: return {Q{0.01, 0.0}, Q{0.5, 0.0}, Q{0.99, 0.0}};
    case 7: return {Q{0.25, 0.025}, Q{0.5, 0.05}, Q{0.75, 0.025}};
    default: return {Q{0.05, 0.005}, Q{0.2, 0.02}, Q{0.8, 0.02}, Q{0.95, 0.005}};
  }
}
struct Obj {
  Summary* s;
  std::vector<double> qs, es;
};
Obj make(const Plan& p) {
  Obj o;
  auto q = quantiles(p.get("q"));
  for (auto& x : q) { o.qs.push_back(x.quantile); o.es.push_back(x.error); }
  auto age = std::chrono::milliseconds(p.get("age_ms"));
  int b = (int)p.get("buckets");
  switch (p.get("via")) {
    case 0: { API; o.s = new Summary(q, age, b); break; }
    case 1: { API; o.s = new Summary(Summary::Quantiles(q), age, b); break; }
    case 2: { API; o.s = &(new Family<Summary>("s", "", {}))->Add({}, q, age, b); break; }
    default: { API; o.s = &BuildSummary().Name("s").Register(*new Registry).Add({{"l", "v"}}, q, age, b); }
  }
  return o;
}
void check_shape(const Obj& o, const ClientMetric& m) {
  require(m.summary.quantile.size() == o.qs.size(), fmt("snapshot has %zu quantiles instead of %zu", m.summary.quantile.size(), o.qs.size()));
  for (size_t i = 0; i < o.qs.size(); i++) require(m.summary.quantile[i].quantile == o.qs[i], "snapshot lists the wrong quantiles: " + dstr(m.summary.quantile[i].quantile) + " instead of " + dstr(o.qs[i]));
}

// ------------------------------------------------------------------ C03
void gen_summ(Plan& p, Rng& r) {
  p.cfg["q"] = r.n(9);
  p.cfg["via"] = r.n(4);
  p.cfg["age_ms"] = r.of<i64>({1, 7, 100, 1000, 60000, 86400000});
  p.cfg["buckets"] = r.of<i64>({1, 2, 3, 5, 10});
  i64 iv = p.cfg["age_ms"] * 1000000 / p.cfg["buckets"];   // ns per rotation
  int th = 2 + (int)r.n(3), total = 4 + (int)r.n(18);
  double u = 1;
  bool fault = r.pct(60), wide = r.pct(30), frac = r.pct(20), nan = r.pct(10), two = r.pct(25);
  if (wide) u = 1 << 20;
  u32 rd = (u32)r.of<int>({20, 40, 60});
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th);
    if (r.pct(20)) p.add(t, SLEEP, r.of<i64>({iv / 2, iv, iv + 1, iv * 3, iv * 50}));
    else if (r.pct(fault ? 8 : 0)) p.add(t, r.pct(50) ? STEPWALL : JUMP, r.in(1, 60) * iv);
    else if (r.pct(rd)) p.add(t, COLLECT);
    else if (r.pct(4)) p.add(t, BURST, r.in(400, 600), 0, 0, u *= 2);
    else if (nan && r.pct(25)) p.add(t, OBS, 0, 0, 0, std::numeric_limits<double>::quiet_NaN());
    else { u *= 2; p.add(t, OBS, 0, 0, 0, frac ? u + 0.1 : (r.pct(20) ? -u : u)); }
    if (u > (1ll << (wide ? 40 : 26))) u = 1;
  }
  if (two) for (auto& o : p.ops) o.c = (i64)r.n(2);
  if (fault) { set_fault(p, dsim::F_STALL, 20000, 3); p.cfg["stall_max"] = std::max<i64>(iv * 20, 2000); }
}
struct M { u64 n; double sum; };
void run_summ(const Plan& p) {
  Obj os[2] = {make(p), make(p)};
  auto body = [&](const Op& op, Rec& r) {
    Obj& o = os[op.c];
    switch (op.k) {
      case SLEEP: dsim::sleep_ns((u64)op.a); break;
      case STEPWALL: dsim::jump_wall(op.a % 2 ? -op.a : op.a); break;
      case JUMP: dsim::jump_steady((u64)op.a); break;
      case OBS: { API; o.s->Observe(op.x); break; }
      case COLLECT: {
        ClientMetric m;
        { API; m = o.s->Collect(); end(r); }
        check_shape(o, m);
        r.r = m.summary.sample_sum; r.ri = (i64)m.summary.sample_count;
        break;
      }
      case BURST: break;
    }
  };
  // a burst is recorded as one call per observation
  Plan q = p;
  q.ops.clear();
  int bursts = 0;
  for (auto& x : p.ops) if (x.k != BURST) q.ops.push_back(x); else bursts++;
  if (bursts) {
    for (auto& x : p.ops) if (x.k == BURST) { API; for (i64 i = 0; i < x.a; i++) os[x.c].s->Observe(x.x); }
  }
  M inits[2] = {};
  for (auto& x : p.ops) if (x.k == BURST) for (i64 i = 0; i < x.a; i++) { inits[x.c].n++; inits[x.c].sum += x.x; }
  auto hist = run_plan(q, body);
  Op fin{99, COLLECT, 0, 0, 0, 0, 0};
  for (fin.c = 0; fin.c < 2; fin.c++) { Rec r = begin(fin); body(fin, r); hist.push_back(r); }
  dsim::sleep_ns((u64)p.get("age_ms") * 5000000ull);
  for (fin.c = 0; fin.c < 2; fin.c++) { Rec r = begin(fin); body(fin, r); hist.push_back(r); }
  dsim::sim_off();
  if (overlaps(hist)) dsim::probe(0);
  auto step = [&](const M& m, const Rec& r, std::vector<M>& out) {
    M n = m;
    if (r.k == OBS) { n.n++; n.sum += r.x; }
    if (r.k == COLLECT && (r.ri != (i64)m.n || (r.r != m.sum && !(std::isnan(r.r) && std::isnan(m.sum))))) return;
    out.push_back(n);
  };
  const auto both = hist;
  for (i64 which = 0; which < 2; which++) {
  hist.clear();
  for (auto& x : both) if (x.c == which && (x.k == OBS || x.k == COLLECT)) hist.push_back(x);
  int l = linearizable(hist, inits[which], step, [](const M& m) { return std::string((const char*)&m.n, 8) + (std::isnan(m.sum) ? std::string("nan") : std::string((const char*)&m.sum, 8)); });
  if (l < 0) dsim::probe(1);
  require(l != 0, "no order of the calls explains the counts and sums of the summary" + show(hist, names));
  }
}
const char* const probes_summ[] = {"overlapping_calls", "search_budget_exceeded", nullptr};
Reg r1({"summ", gen_summ, run_summ, probes_summ, "Summary, TimeWindowQuantiles, CKMSQuantiles, Family, Registry (instrumented C++)", "clocks, scheduler, mutex"});

// ------------------------------------------------------------------ C04 and C05
struct Obs { double v; u64 inv, ret, t0, t1; };
struct Snap { std::vector<double> v; u64 inv, ret, t0, t1; };

void judge(const Obj& o, u64 max_age, u64 buckets, std::vector<Obs> obs, const std::vector<Snap>& snaps) {
  std::sort(obs.begin(), obs.end(), [](const Obs& a, const Obs& b) { return a.inv < b.inv; });
  const u64 slack = 1000;   // rounding of max_age/age_buckets
  u64 young = max_age - max_age / buckets;
  young = young > slack ? young - slack : 0;
  std::vector<const Obs*> c;
  std::vector<i64> cuts;
  for (auto& s : snaps) {
    // Candidates.  The window begins at some instant "cut" between now - max_age
    // and now - young; a call that spans the cut, or that overlaps the
    // collection, may or may not be part of it, every other one is decided.
    c.clear();
    cuts.clear();
    i64 lo = (i64)s.t0 - (i64)max_age, hi = (i64)s.t1 - (i64)young;
    cuts.push_back(lo);
    cuts.push_back(hi);
    size_t must = 0;
    for (auto& x : obs) {
      if (x.inv > s.ret || (i64)x.t1 < lo) continue;
      c.push_back(&x);
      must += x.ret < s.inv && (i64)x.t0 >= hi;
      if ((i64)x.t0 + 1 < hi && (i64)x.t0 + 1 > lo) cuts.push_back((i64)x.t0 + 1);
      if ((i64)x.t1 + 1 < hi && (i64)x.t1 + 1 > lo) cuts.push_back((i64)x.t1 + 1);
    }
    size_t n = c.size();
    if (n == 0) dsim::probe(2);
    if (must && obs.size() > n && s.ret > obs.back().inv) dsim::probe(3);
    if (must > 500) dsim::probe(5);
    for (size_t qi = 0; qi < o.qs.size(); qi++) {
      double v = s.v[qi], q = o.qs[qi], e2 = 2 * o.es[qi];
      bool good = false;
      for (size_t k = 0; k < cuts.size() && !good; k++) {
        i64 L = 0, E = 0, G = 0, ol = 0, oe = 0, og = 0;   // decided / optional: less, equal, greater
        for (auto x : c) {
          if ((i64)x->t1 < cuts[k]) continue;
          bool sure = x->ret < s.inv && (i64)x->t0 >= cuts[k];
          if (x->v < v) (sure ? L : ol)++;
          else if (x->v == v) (sure ? E : oe)++;
          else (sure ? G : og)++;
        }
        if (std::isnan(v)) { good = L + E + G == 0; continue; }
        if (E + oe == 0) continue;
        for (i64 l = L; l <= L + ol && !good; l++)
          {
            const i64 e = E + oe;   // more equal values only make it easier
            // l + 1 <= (q + e2) m + 5 and l + e >= (q - e2) m - 5 with m = l + e + g
            double gmin = (double)(l + 1 - 5) / (q + e2) - (double)(l + e);
            double gmax = q - e2 > 0 ? (double)(l + e + 5) / (q - e2) - (double)(l + e) : 1e18;
            good = gmin <= (double)(G + og) && gmax >= (double)G && std::ceil(std::max(gmin, (double)G)) <= std::floor(std::min(gmax, (double)(G + og)));
          }
      }
      if (!good) {
        std::string why = fmt("quantile %g reported as %s at [%.6f s, %.6f s]; %zu observation(s) may be in the window, %zu must be (max_age %.3f s, %llu buckets, %zu observations in all)", o.qs[qi], dstr(v).c_str(), s.t0 / 1e9, s.t1 / 1e9,
                              n, must, max_age / 1e9, (unsigned long long)buckets, obs.size());
        size_t shown = 0;
        for (auto& x : obs) if (x.v == v && shown++ < 3) why += fmt("; %s was observed at [%.6f, %.6f]", dstr(v).c_str(), x.t0 / 1e9, x.t1 / 1e9);
        std::vector<double> w;
        for (auto x : c) w.push_back(x->v);
        std::sort(w.begin(), w.end());
        if (!w.empty()) why += fmt("; the candidates range from %s to %s, %d of them are less and %d equal", dstr(w.front()).c_str(), dstr(w.back()).c_str(), (int)(std::lower_bound(w.begin(), w.end(), v) - w.begin()),
                                   (int)(std::upper_bound(w.begin(), w.end(), v) - std::lower_bound(w.begin(), w.end(), v)));
        fail(why);
      }
    }
  }
}

double value_of(i64 pattern, i64 base, i64 i, i64 n) {
  switch (pattern) {
    case 0: return (double)(base + i);
    case 1: return (double)(base - i);
    case 2: return (double)(base + (i % 2 ? i : -i));
    case 3: return (double)(base + (i * 7919) % (n | 1));
    case 4: return (double)(base + (i * i) % 37);
    case 5: return (double)base;
    case 6: { i64 z = i, r = 0; for (int k = 0; k < 12; k++) { r = r << 1 | (z & 1); z >>= 1; } return (double)(base + r); }
    default: return (double)base + std::sqrt((double)i) * (i % 3 ? 1 : -1);
  }
}

void run_window(const Plan& p) {
  Obj os[2] = {make(p), make(p)};
  int n = p.threads();
  std::vector<std::vector<Obs>> obs_[2];
  std::vector<std::vector<Snap>> snaps_[2];
  for (auto& v : obs_) v.resize(n + 1);
  for (auto& v : snaps_) v.resize(n + 1);
  auto observe = [&](int th, int k, double v) {
    auto& obs = obs_[k]; Obj& o = os[k];
    Obs x; x.v = v; x.t0 = dsim::now(); x.inv = dsim::ev();
    { API; o.s->Observe(v); }
    x.ret = dsim::ev(); x.t1 = dsim::now();
    obs[th].push_back(x);
  };
  auto collect = [&](int th, int k) {
    auto& snaps = snaps_[k]; Obj& o = os[k];
    Snap s; s.t0 = dsim::now(); s.inv = dsim::ev();
    ClientMetric m;
    { API; m = o.s->Collect(); }
    s.ret = dsim::ev(); s.t1 = dsim::now();
    check_shape(o, m);
    for (auto& q : m.summary.quantile) s.v.push_back(q.value);
    snaps[th].push_back(s);
    for (double d : s.v) { u64 b; memcpy(&b, &d, 8); dsim::log_event(b, s.ret); }
  };
  Team t;
  for (int i = 0; i < n; i++)
    t.go([&, i]() {
      for (auto& x : p.ops) {
        if (x.th != i) continue;
        switch (x.k) {
          case OBS: observe(i, (int)x.y, x.x); break;
          case BURST: for (i64 k = 0; k < x.a; k++) { observe(i, (int)x.y, value_of(x.b, x.c, k, x.a)); if (x.x > 0 && k % (i64)x.x == (i64)x.x - 1) collect(i, (int)x.y); } break;
          case COLLECT: collect(i, (int)x.y); break;
          case SLEEP: dsim::sleep_ns((u64)x.a); break;
          case STEPWALL: dsim::jump_wall(x.a); break;
          case JUMP: dsim::jump_steady((u64)x.a); dsim::probe(4); break;
        }
      }
    });
  t.join();
  for (int k : {0, 1, 0, 1}) collect(n, k);
  dsim::sim_off();
  for (int k = 0; k < 2; k++) {
  std::vector<Obs> all;
  std::vector<Snap> as;
  for (auto& v : obs_[k]) all.insert(all.end(), v.begin(), v.end());
  for (auto& v : snaps_[k]) as.insert(as.end(), v.begin(), v.end());
  judge(os[k], (u64)p.get("age_ms") * 1000000ull, (u64)p.get("buckets"), all, as);
  }
}

void gen_window(Plan& p, Rng& r) {
  p.cfg["q"] = r.of<i64>({3, 6, 6, 2, 4});
  p.cfg["via"] = r.n(4);
  p.cfg["age_ms"] = r.of<i64>({5, 100, 1000, 30000, 60000, 600000});
  p.cfg["buckets"] = r.of<i64>({1, 2, 3, 4, 5, 5, 7, 10});
  i64 age = p.cfg["age_ms"] * 1000000, iv = age / p.cfg["buckets"];
  p.cfg["tick"] = r.of<i64>({50, 200, 1000});
  int th = 1 + (int)r.n(3), total = 4 + (int)r.n(20);
  i64 base = 1000000;
  int dir = r.pct(50) ? 1 : -1;
  bool jumps = r.pct(40), steps = r.pct(50);
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th);
    switch (r.n(9)) {
      case 0: case 1: case 2: {
        i64 m = r.of<i64>({1, 12, 25, 40});
        p.add(t, BURST, m, r.n(4), base += dir * 1000, r.pct(20) ? 5 : 0);
        break;
      }
      case 3: case 4: p.add(t, COLLECT); break;
      case 5: case 6: case 7: {
        i64 d = r.of<i64>({iv / 3, iv / 2, iv - 100000, iv, iv + 1, iv * 2, iv * 3 / 2, age - iv, age - iv / 2, age, age + iv / 2, age + iv, age * 2, age * 3 + iv / 3, age * 40});
        if (d < 1) d = 1;
        p.add(t, jumps && r.pct(30) ? JUMP : SLEEP, d);
        break;
      }
      default: if (steps) p.add(t, STEPWALL, r.in(-3, 3) * age + r.in(-5, 5) * 1000000000ll); else p.add(t, COLLECT);
    }
  }
  if (r.pct(25)) for (auto& x : p.ops) x.y = (double)r.n(2);   // two summaries, used by the same threads
  if (r.pct(25)) { set_fault(p, dsim::F_STALL, 3000, 4); p.cfg["stall_max"] = iv * 2 + 2000; }
  if (steps && r.pct(50)) set_fault(p, dsim::F_WALL_JUMP, 100000, 10);
}
const char* const probes_window[] = {"-", "-", "empty_window_collected", "expired_and_current_observations_together", "monotonic_jump", "more_than_500_observations_in_window", nullptr};
Reg r2({"window", gen_window, run_window, probes_window, "Summary, TimeWindowQuantiles, CKMSQuantiles, Family, Registry (instrumented C++)", "clocks, scheduler, mutex"});

void gen_quant(Plan& p, Rng& r) {
  p.cfg["q"] = r.of<i64>({1, 2, 3, 5, 6, 7, 8, 4});
  if (p.cfg["q"] == 1) p.cfg["q"] = 7;
  p.cfg["via"] = r.n(4);
  bool rot = r.pct(25);
  p.cfg["age_ms"] = rot ? 1000 : 86400000;
  p.cfg["buckets"] = r.of<i64>({2, 3, 5});
  if (r.pct(80)) p.cfg["p_sync"] = std::min<i64>(p.cfg["p_sync"], 50000);
  p.cfg["p_plain"] = std::min<i64>(p.get("p_plain"), 200);
  int th = 1 + (int)r.n(3), total = 1 + (int)r.n(5);
  i64 base = 0;
  i64 budget = p.cfg["q"] == 6 || p.cfg["q"] == 4 ? r.of<i64>({100, 520, 700}) : r.of<i64>({100, 600, 1200, 2600});
  for (int i = 0; i < total && budget > 0; i++) {
    int t = i < th ? i : (int)r.n(th);
    i64 m = std::min<i64>(budget, r.of<i64>({3, 60, 499, 500, 501, 995, 1500, 2500}));
    budget -= m;
    p.add(t, BURST, m, r.n(8), base += r.in(-500, 500), r.of<double>({0, 0, 0, 1, 7, 100, 499}));
    if (m > 100 && p.ops.back().x > 0 && p.ops.back().x < 97) p.ops.back().x = 97;
    if (r.pct(60)) p.add(t, COLLECT);
    if (rot && r.pct(50)) p.add(t, SLEEP, r.in(100, 1500) * 1000000);
  }
  if (r.pct(15)) for (auto& x : p.ops) x.y = (double)r.n(2);
  p.cfg["max_sync"] = 2000000;
  p.cfg["fair_after"] = 1000000;
}
void run_quant(const Plan& p) { run_window(p); }
Reg r3({"quant", gen_quant, run_quant, probes_window, "Summary, TimeWindowQuantiles, CKMSQuantiles, Family, Registry (instrumented C++)", "clocks, scheduler, mutex"});
}  // namespace
