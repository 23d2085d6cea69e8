// C06: metric families.
#include "h.h"
#include <prometheus/counter.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/histogram.h>
#include <prometheus/info.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { ADD, UPD, REMOVE, HAS, COLLECT, BADADD, SNAPALL, STRANGER };
const char* const names[] = {"Add", "update", "Remove", "Has", "Collect", "Add(invalid)", "Registry::Collect", "Remove(a metric of another family)"};

// A string of eight bytes that std::hash maps to `target` (libstdc++'s function
// can be inverted), or nothing if the standard library does it differently.
std::string with_hash(u64 target) {
  const u64 mul = 0xc6a4a7935bd1e995ull;
  u64 inv = mul;   // inverse of mul modulo 2^64
  for (int i = 0; i < 6; i++) inv *= 2 - mul * inv;
  auto mix = [](u64 v) { return v ^ (v >> 47); };   // its own inverse
  u64 hash = 0xc70f6907ull ^ (8 * mul);
  u64 v = mix(mix(target) * inv);     // undo the two last steps
  v *= inv;                           // hash ^ data
  u64 data = mix((v ^ hash) * inv) * inv;
  std::string s((const char*)&data, 8);
  return std::hash<std::string>{}(s) == target ? s : std::string("8 bytes!");
}
u64 combine(u64 seed, const std::string& s) { return seed ^ (std::hash<std::string>{}(s) + 0x9e3779b9 + (seed << 6) + (seed >> 2)); }
// a value for label `name` that makes {name: value} have the same hash as {other: other_value}
std::string colliding(const std::string& name, const std::string& other, const std::string& other_value) {
  u64 want = combine(combine(0, other), other_value), s = combine(0, name);
  return with_hash((want ^ s) - 0x9e3779b9 - (s << 6) - (s >> 2));
}

// label sets; constant labels by configuration
const int NL = 18;
Labels labels_of(i64 a) {
  switch (a) {
    case 0: return {};
    case 1: return {{"l", "1"}};
    case 2: return {{"l", "2"}};
    case 3: return {{"l", "1"}, {"m", ""}};
    case 4: return {{"m", "1"}};
    case 5: return {{"a", "\n\\\""}, {"z", "x"}};
    case 6: return {{"l", ""}};
    case 7: return {{"ab", "c"}, {"a", "bc"}};
    case 8: return {{"A", "1"}, {"Z", "2"}, {"_", "3"}};
    case 9: return {{"z9", "1"}, {"Z0", ""}, {"_a", "x"}};
    case 10: return {{"A9Z", "1"}, {"zaZ_0", "2"}, {"_0", ""}};
    case 11: return {{"a_", "b"}, {"a_z", "c"}};
    case 12: return {{"l", "1"}, {"m", "2"}};
    case 13: return {{"l", "2"}, {"m", "1"}};
    case 14: return {{"l", colliding("l", "m", "1")}};   // with 4
    case 15: return {{"m", colliding("m", "l", "1")}};   // with 1
    case 16: return {{"l", "1 "}};
    default: return {{"l", std::string("1\0", 2)}};
  }
}
Labels const_labels(i64 c) {
  switch (c) {
    case 0: return {};
    case 1: return {{"k", "v"}};
    case 3: return {{"k", "v"}, {"b", "1"}};
    case 4: return {{"B", "w"}, {"_b", "\n"}, {"b", "1"}, {"k", "2"}, {"k0", "3"}, {"k_", "k"}, {"y", ""}, {"zz", "l"}};
    default: return {{"k", "v"}, {"b", "w"}, {"zz", ""}};
  }
}

template <class T> struct Tr;
template <> struct Tr<Gauge> {
  static Gauge& add(Family<Gauge>& f, const Labels& l, double x) { return f.Add(l, x); }
  static void upd(Gauge& g, double x) { g.Increment(x); }
  static double val(const ClientMetric& m, double) { return m.gauge.value; }
  static double cfg(const ClientMetric& m) { return 0; }
  static const bool in_value = true, in_cfg = false;
  static detail::Builder<Gauge> build() { return BuildGauge(); }
};
template <> struct Tr<Counter> {
  static Counter& add(Family<Counter>& f, const Labels& l, double) { return f.Add(l); }
  static void upd(Counter& g, double x) { g.Increment(x); }
  static double val(const ClientMetric& m, double) { return m.counter.value; }
  static double cfg(const ClientMetric&) { return 0; }
  static const bool in_value = false, in_cfg = false;
  static detail::Builder<Counter> build() { return BuildCounter(); }
};
template <> struct Tr<Histogram> {
  static Histogram& add(Family<Histogram>& f, const Labels& l, double x) { return f.Add(l, Histogram::BucketBoundaries{x}); }
  static void upd(Histogram& g, double x) { g.Observe(x); }
  static double val(const ClientMetric& m, double) { return m.histogram.sample_sum; }
  static double cfg(const ClientMetric& m) { return m.histogram.bucket.size() ? m.histogram.bucket[0].upper_bound : -1; }
  static const bool in_value = false, in_cfg = true;
  static detail::Builder<Histogram> build() { return BuildHistogram(); }
};
template <> struct Tr<Summary> {
  static Summary& add(Family<Summary>& f, const Labels& l, double x) { return f.Add(l, Summary::Quantiles{{1 / (2 + x), 0.05}}); }
  static void upd(Summary& g, double x) { g.Observe(x); }
  static double val(const ClientMetric& m, double) { return m.summary.sample_sum; }
  static double cfg(const ClientMetric& m) { return m.summary.quantile.size() ? std::round(1 / m.summary.quantile[0].quantile - 2) : -1; }
  static const bool in_value = false, in_cfg = true;
  static detail::Builder<Summary> build() { return BuildSummary(); }
};
template <> struct Tr<Info> {
  static Info& add(Family<Info>& f, const Labels& l, double) { return f.Add(l); }
  static void upd(Info&, double) {}
  static double val(const ClientMetric& m, double) { return m.info.value - 1; }
  static double cfg(const ClientMetric&) { return 0; }
  static const bool in_value = false, in_cfg = false;
  static detail::Builder<Info> build() { return BuildInfo(); }
};

struct Seen { i64 label; double value, cfg; };

struct M { std::map<int, std::pair<const void*, double>> m; };

template <class T>
void run_t(const Plan& p) {
  const Labels cl = const_labels(p.get("const"));
  bool viareg = p.get("via");
  Registry* reg = new Registry;
  Family<T>* fam = viareg ? &Tr<T>::build().Name("fam_x").Help("some help").Labels(cl).Register(*reg) : new Family<T>("fam_x", "some help", cl);
  const int nt = p.threads();
  std::vector<std::map<i64, T*>> mine(nt + 1);
  std::map<T*, int> in_use;
  std::set<T*> dead, gone;
  // a family with the same name and metrics, which must be without influence
  Family<T>* other = new Family<T>("fam_x", "some help", cl);
  std::map<i64, T*> strangers;
  if (p.get("strangers")) for (i64 a = 0; a < NL; a++) strangers[a] = &Tr<T>::add(*other, labels_of(a), 1);
  std::vector<std::vector<std::vector<Seen>>> seen(nt + 1);
  std::map<std::vector<ClientMetric::Label>, i64> label_id;
  for (i64 a = 0; a < NL; a++) {
    std::vector<ClientMetric::Label> v;
    for (auto& x : cl) v.push_back({x.first, x.second});
    for (auto& x : labels_of(a)) v.push_back({x.first, x.second});
    label_id[v] = a;
  }
  // metrics nobody touches, so that the container grows and is reorganised
  M init;
  const i64 extra = p.get("extra");
  for (i64 a = 0; a < extra; a++) {
    Labels l{{"extra", std::to_string(a)}};
    std::vector<ClientMetric::Label> v;
    for (auto& x : cl) v.push_back({x.first, x.second});
    for (auto& x : l) v.push_back({x.first, x.second});
    label_id[v] = 100 + a;
    API;
    init.m[(int)(100 + a)] = {&Tr<T>::add(*fam, l, 3), 3};
  }
  auto read = [&](const std::vector<MetricFamily>& fs, int th, Rec& r) {
    std::vector<Seen> s;
    require(fs.size() <= 1, "collecting a family returned more than one family");
    for (auto& f : fs) {
      require(!f.metric.empty(), "a family without metrics was collected");
      require(f.name == "fam_x" && f.help == "some help" && f.type == T::metric_type, "a collected family has the wrong name, help or type");
      for (auto& m : f.metric) {
        auto it = label_id.find(m.label);
        if (it == label_id.end()) {
          std::string l;
          for (auto& x : m.label) l += x.name + "=" + x.value + ",";
          fail("a collected metric has labels nobody added, or not the constant labels followed by its own: " + l);
        }
        for (auto& o : s) require(o.label != it->second, "a label set was collected twice");
        s.push_back({it->second, Tr<T>::val(m, 0), Tr<T>::cfg(m)});
      }
    }
    for (auto& o : s) r.rs += fmt("{%lld}=%s/%s ", (long long)o.label, dstr(o.value).c_str(), dstr(o.cfg).c_str());
    r.ri = (i64)seen[th].size();
    seen[th].push_back(s);
  };
  auto body = [&](const Op& o, Rec& r) {
    int th = o.th == 99 ? nt : o.th;
    switch (o.k) {
      case ADD: {
        Labels l = labels_of(o.a);
        T* q;
        { API; q = &Tr<T>::add(*fam, l, o.x); end(r); }
        r.ri = (i64)q;
        if (!dead.count(q)) mine[th][o.a] = q;
        break;
      }
      case BADADD: {
        Labels l = labels_of(o.a);
        switch (o.b) {
          case 0: l["__x"] = "1"; break;
          case 1: l["1a"] = "1"; break;
          case 2: if (cl.empty()) l[""] = "1"; else { auto x = *std::next(cl.begin(), o.c % (i64)cl.size()); l[x.first] = o.c & 1 ? x.second : "other"; } break;
          case 3: l[T::metric_type == MetricType::Histogram ? "le" : T::metric_type == MetricType::Summary ? "quantile" : "l e"] = "1"; break;
          case 4: l["zz\xff"] = "z"; break;
          default: { std::string q = a_name((u64)o.c, false); q.insert((size_t)(o.c / 20) % (q.size() + 1), bad_char(o.c, false)); l[q] = "z"; }
        }
        bool has;
        {
          API;
          try { Tr<T>::add(*fam, l, o.x); } catch (const std::invalid_argument&) { r.failed = true; }
          if (!r.failed) fail("Add accepted an invalid or duplicate label name");
          has = fam->Has(l);
        }
        if (has) fail("the family has a metric whose labels were refused");
        break;
      }
      case UPD: {
        auto it = mine[th].find(o.a);
        r.ri = 0;
        if (it == mine[th].end() || dead.count(it->second)) { r.failed = true; break; }
        T* q = it->second;
        in_use[q]++;
        { API; Tr<T>::upd(*q, o.x); }
        in_use[q]--;
        dsim::hb_release(q);
        r.ri = (i64)q;
        break;
      }
      case REMOVE: {
        auto it = mine[th].find(o.a);
        r.ri = 0;
        if (it == mine[th].end() || in_use[it->second]) { r.failed = true; break; }
        T* q = it->second;
        // two threads may be removing the same metric: one of the calls does nothing
        if (dead.count(q) && (gone.count(q) || !p.get("twice"))) { r.failed = true; break; }
        dead.insert(q);
        dsim::hb_acquire(q);
        r.ri = (i64)q;
        { API; fam->Remove(q); }
        gone.insert(q);
        mine[th].erase(o.a);
        break;
      }
      case STRANGER: { T* q = o.b ? strangers[o.a] : nullptr; API; fam->Remove(q); break; }
      case HAS: { Labels l = labels_of(o.a); API; r.ri = fam->Has(l); break; }
      case COLLECT: {
        std::vector<MetricFamily> v;
        { API; v = fam->Collect(); end(r); }
        read(v, th, r);
        break;
      }
      case SNAPALL: {
        std::vector<MetricFamily> v;
        { API; v = viareg ? reg->Collect() : static_cast<const Collectable*>(fam)->Collect(); end(r); }
        read(v, th, r);
        break;
      }
    }
  };
  auto hist = run_plan(p, body);
  Op fin{99, COLLECT, 0, 0, 0, 0, 0};
  { Rec r = begin(fin); body(fin, r); hist.push_back(r); }
  dsim::sim_off();
  if (overlaps(hist)) dsim::probe(0);

  // updates and initial value per instance
  std::map<const void*, int> label_of, removals;
  for (auto& r : hist) if (r.k == REMOVE && !r.failed) removals[(void*)r.ri]++;
  for (auto& r : hist) if (r.k == ADD) label_of[(void*)r.ri] = (int)r.a;
  // Could instance q (initial value init) have shown this to the collection?
  auto fits = [&](const void* q, double init, const Seen& s, const Rec& c) {
    if (Tr<T>::in_cfg && s.cfg != init) return false;
    if (std::is_same<T, Info>::value) return s.value == 0;
    double v = s.value - (Tr<T>::in_value ? init : 0);
    if (v < 0 || v != std::floor(v)) return false;
    u64 bits = (u64)v;
    for (auto& r : hist) {
      if (r.k != UPD || r.failed) continue;
      u64 b = (u64)r.x;
      bool in = bits & b;
      if ((const void*)r.ri == q) {
        if (in && r.inv > c.ret) return false;
        if (!in && r.ret < c.inv) return false;
        bits &= ~b;
      } else if (in) return false;
    }
    return bits == 0;
  };
  auto step = [&](const M& m, const Rec& r, std::vector<M>& out) {
    M n = m;
    int l = (int)r.a;
    switch (r.k) {
      case ADD: {
        auto it = n.m.find(l);
        if (it != n.m.end()) { if (it->second.first != (void*)r.ri) return; }
        else {
          for (auto& x : n.m) if (x.second.first == (void*)r.ri) return;
          // a metric that was removed never comes back
          n.m[l] = {(void*)r.ri, r.x};
        }
        break;
      }
      case REMOVE: if (!r.failed) { auto it = n.m.find(l); if (it != n.m.end() && it->second.first == (void*)r.ri) n.m.erase(it); else if (removals[(void*)r.ri] < 2) return; } break;
      case HAS: if ((n.m.count(l) != 0) != (r.ri != 0)) return; break;
      case COLLECT: case SNAPALL: {
        auto& s = seen[r.th == 99 ? nt : r.th][r.ri];
        if (s.size() != n.m.size()) return;
        for (auto& x : s) {
          auto it = n.m.find((int)x.label);
          if (it == n.m.end() || !fits(it->second.first, it->second.second, x, r)) return;
        }
        break;
      }
      default: break;
    }
    out.push_back(n);
  };
  auto key = [](const M& m) { std::string s; for (auto& x : m.m) s += fmt("%d:%p:%g;", x.first, x.second.first, x.second.second); return s; };
  int l = linearizable(hist, init, step, key);
  if (l < 0) dsim::probe(1);
  if (!strangers.empty()) require(other->Collect().size() == 1 && other->Collect()[0].metric.size() == NL, "removing metrics of another family from this one changed the other one");
  if (l == 0) {
    for (auto& r : hist) if (r.k == ADD || r.k == REMOVE || r.k == UPD) r.rs = fmt("instance #%d", r.ri ? (int)std::distance(label_of.begin(), label_of.find((void*)r.ri)) : -1);
    fail("no order of the calls explains what the family returned" + show(hist, names));
  }
}

void gen(Plan& p, Rng& r) {
  p.cfg["type"] = r.n(5);
  p.cfg["const"] = r.n(5);
  p.cfg["via"] = r.pct(50);
  p.cfg["extra"] = r.of<i64>({0, 0, 0, 1, 10, 11, 12, 13, 28});
  int th = 2 + (int)r.n(3), total = 4 + (int)r.n(18);
  // a few label sets, often ones that are alike
  std::vector<i64> ls;
  if (r.pct(50)) { i64 off = (i64)r.n(NL); for (i64 i = 0, n = 1 + (i64)r.n(4); i < n; i++) ls.push_back((off + i) % NL); }
  else switch (r.n(4)) {
    case 0: ls = {4, 14}; break;
    case 1: ls = {1, 15, 3}; break;
    case 2: ls = {12, 13, 1}; break;
    default: ls = {1, 16, 17, 2};
  }
  u32 rd = (u32)r.of<int>({15, 30, 50}), bad = (u32)r.of<int>({0, 10, 30});
  bool rem = r.pct(70);
  p.cfg["strangers"] = r.pct(30);
  p.cfg["twice"] = r.pct(40);
  double u = 1;
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th);
    i64 a = ls[r.n(ls.size())];
    u *= 2;
    if (r.pct(rd)) p.add(t, r.pct(60) ? COLLECT : r.pct(50) ? HAS : SNAPALL, a);
    else if (p.cfg["strangers"] && r.pct(20)) p.add(t, STRANGER, a, r.pct(70));
    else if (r.pct(bad)) p.add(t, BADADD, a, r.pct(25) ? 2 : (i64)r.n(8), r.n(100000), u);
    else switch (r.n(rem ? 4 : 3)) {
      case 0: case 1: p.add(t, ADD, a, 0, 0, u); break;
      case 2: if (r.pct(60)) { p.add(t, UPD, a, 0, 0, u); break; } p.add(t, ADD, a, 0, 0, u); break;
      default:
        p.add(t, REMOVE, a);
        if (p.cfg["twice"] && r.pct(40)) { p.add((t + 1) % th, REMOVE, a); if (r.pct(60)) p.add((t + 1) % th, ADD, a, 0, 0, u *= 2); }
    }
  }
  if (r.pct(20)) set_fault(p, dsim::F_STALL, 20000, 3);
  if (r.pct(20)) set_fault(p, dsim::F_CAS, 200000, 6);
}
void run(const Plan& p) {
  switch (p.get("type")) {
    case 0: run_t<Counter>(p); break;
    case 1: run_t<Gauge>(p); break;
    case 2: run_t<Histogram>(p); break;
    case 3: run_t<Summary>(p); break;
    default: run_t<Info>(p);
  }
}
const char* const probes[] = {"overlapping_calls", "search_budget_exceeded", nullptr};
Reg r_({"family", gen, run, probes, "Family, label hashing, name checks, all five metric types, Registry (instrumented C++)", "scheduler, mutex, weak compare-and-swap outcome"});
}  // namespace
