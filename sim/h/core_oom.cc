// C09: a failed allocation inside any call is reported and changes nothing.
#include "h.h"
#include <algorithm>
#include <new>
#include <prometheus/counter.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/histogram.h>
#include <prometheus/info.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>
#include <prometheus/text_serializer.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { REG, REGBAD, UNREG, ADD, ADDBAD, REMOVE, HAS, HOBS, HMULTI, SOBS, SHOBS, COLLECT, RCOLLECT, SER, SEROS, MAKE, CINC, SBURST, SCHECK, NK };
const char* const names[] = {"Register", "Register(refused)", "Registry::Remove", "Family::Add", "Family::Add(refused)", "Family::Remove", "Family::Has", "Histogram::Observe", "Histogram::ObserveMultiple",
                             "Summary::Observe", "Summary::Observe(shared)", "Family::Collect", "Registry::Collect", "Serialize to string", "Serialize to stream", "construction", "Counter::Increment", "burst", "Summary::Collect"};
const int NT = 5;   // metric types

struct World {
  std::unique_ptr<Registry> reg;
  std::unique_ptr<Registry> strict;
  Family<Counter>* fc; Family<Gauge>* fg; Family<Histogram>* fh; Family<Info>* fi; Family<Summary>* fs;
  Summary* shared;
  Histogram* sharedh;
};
struct FamRef { int type; void* p; };

// ---- the state a thread expects of everything that belongs to it
struct Mine {
  std::map<std::string, FamRef> fams;                       // families registered, by name
  std::map<std::pair<int, std::string>, void*> mets;        // metrics by type and value of label "own"
  std::map<std::pair<int, std::string>, double> val;        // counter value
  Summary* s = nullptr; Histogram* hi = nullptr;
  std::multiset<double> obs;                                // summary observations that succeeded
  double hsum = 0; u64 hn = 0;
  u64 shared_ok = 0; double shared_sum = 0;
  int serial = 0;
};
struct Try { int rc; bool fired; };
template <class F>
Try attempt(i64 n, F f) {
  Try t{0, false};
  {
    API;
    dsim::arm_alloc(n);
    try { f(); }
    catch (const std::bad_alloc&) { t.rc = 1; }
    catch (const std::invalid_argument&) { t.rc = 2; }
    catch (const std::length_error&) { t.rc = 3; }
    catch (const std::exception&) { t.rc = 4; }
    t.fired = dsim::alloc_fired();
    dsim::arm_alloc(-1);
  }
  if (t.fired) dsim::probe(0);
  return t;
}
void* reg_fam(Registry& r, int type, const std::string& n, const std::string& help, const Labels& l) {
  switch (type) {
    case 0: return &BuildCounter().Name(n).Help(help).Labels(l).Register(r);
    case 1: return &BuildGauge().Name(n).Help(help).Labels(l).Register(r);
    case 2: return &BuildHistogram().Name(n).Help(help).Labels(l).Register(r);
    case 3: return &BuildInfo().Name(n).Help(help).Labels(l).Register(r);
    default: return &BuildSummary().Name(n).Help(help).Labels(l).Register(r);
  }
}
bool unreg_fam(Registry& r, FamRef f) {
  switch (f.type) {
    case 0: return r.Remove(*(Family<Counter>*)f.p);
    case 1: return r.Remove(*(Family<Gauge>*)f.p);
    case 2: return r.Remove(*(Family<Histogram>*)f.p);
    case 3: return r.Remove(*(Family<Info>*)f.p);
    default: return r.Remove(*(Family<Summary>*)f.p);
  }
}
const Histogram::BucketBoundaries bounds{1, 2, 4};
const Summary::Quantiles quants{{0.5, 0.01}, {0.1, 0.01}, {0.999, 0.0001}};
void* add_met(World& w, int type, const Labels& l) {
  switch (type) {
    case 0: return &w.fc->Add(l);
    case 1: return &w.fg->Add(l, 3.0);
    case 2: return &w.fh->Add(l, bounds);
    case 3: return &w.fi->Add(l);
    default: return &w.fs->Add(l, quants, std::chrono::hours(1000), 3);
  }
}
void rem_met(World& w, int type, void* p) {
  switch (type) {
    case 0: w.fc->Remove((Counter*)p); break;
    case 1: w.fg->Remove((Gauge*)p); break;
    case 2: w.fh->Remove((Histogram*)p); break;
    case 3: w.fi->Remove((Info*)p); break;
    default: w.fs->Remove((Summary*)p); break;
  }
}
bool has_met(World& w, int type, const Labels& l) {
  switch (type) {
    case 0: return w.fc->Has(l);
    case 1: return w.fg->Has(l);
    case 2: return w.fh->Has(l);
    case 3: return w.fi->Has(l);
    default: return w.fs->Has(l);
  }
}
std::vector<MetricFamily> collect_fam(World& w, int type) {
  switch (type) {
    case 0: return w.fc->Collect();
    case 1: return w.fg->Collect();
    case 2: return w.fh->Collect();
    case 3: return w.fi->Collect();
    default: return w.fs->Collect();
  }
}
const char* const fam_names[] = {"counters", "gauges", "histograms", "infos", "summaries"};

std::string own_of(const ClientMetric& m, int th) {
  std::string pre = std::to_string(th) + "-";
  for (auto& l : m.label) if (l.name == "own" && l.value.compare(0, pre.size(), pre) == 0) return l.value;
  return "";
}
// the part of a collected family that belongs to thread th is exactly what th expects
void check_family(const MetricFamily& f, int type, int th, const Mine& me, const char* when) {
  std::set<std::string> seen;
  for (auto& m : f.metric) {
    std::string o = own_of(m, th);
    if (o.empty()) continue;
    auto it = me.mets.find({type, o});
    require(it != me.mets.end(), std::string(when) + ": family " + f.name + " shows metric " + o + " whose addition failed or that was removed");
    require(seen.insert(o).second, std::string(when) + ": family " + f.name + " shows metric " + o + " twice");
    require(m.label.size() == 2 && m.label[0].name == "const" && m.label[0].value == "c", std::string(when) + ": wrong labels on " + o);
    if (type == 0) { auto v = me.val.find({type, o}); require(m.counter.value == (v == me.val.end() ? 0 : v->second), std::string(when) + ": counter " + o + " shows " + dstr(m.counter.value)); }
    if (type == 1) require(m.gauge.value == 3, std::string(when) + ": gauge " + o + " shows " + dstr(m.gauge.value));
    if (type == 2) require(m.histogram.bucket.size() == 4, std::string(when) + ": histogram " + o + " lost buckets");
    if (type == 4) require(m.summary.quantile.size() == 3, std::string(when) + ": summary " + o + " lost quantiles");
  }
  for (auto& x : me.mets) if (x.first.first == type) require(seen.count(x.first.second), std::string(when) + ": family " + f.name + " lost metric " + x.first.second);
}
void check_registry(const std::vector<MetricFamily>& v, int th, const Mine& me, const char* when) {
  std::set<std::string> seen;
  bool types[NT] = {};
  std::string pre = fmt("fam_%d_", th);
  for (auto& f : v) {
    for (int t = 0; t < NT; t++) if (f.name == fam_names[t]) { require(!types[t], std::string(when) + ": family twice"); types[t] = true; check_family(f, t, th, me, when); }
    if (f.name.compare(0, pre.size(), pre)) continue;
    require(me.fams.count(f.name), std::string(when) + ": registry shows family " + f.name + " whose registration failed or that was removed");
    require(seen.insert(f.name).second, std::string(when) + ": registry shows family " + f.name + " twice");
    require(f.metric.size() == 1, std::string(when) + ": family " + f.name + " changed");
  }
  for (auto& x : me.fams) require(seen.count(x.first), std::string(when) + ": registry lost family " + x.first);
  for (int t = 0; t < NT; t++) for (auto& x : me.mets) if (x.first.first == t) require(types[t], std::string(when) + ": registry lost family " + fam_names[t]);
}
void check_summary(const ClientMetric& m, const Mine& me, const char* when) {
  double sum = 0;
  for (double d : me.obs) sum += d;
  require(m.summary.sample_count == me.obs.size() && m.summary.sample_sum == sum,
          fmt("%s: summary shows %llu observations with sum %s instead of %zu with sum %s", when, (unsigned long long)m.summary.sample_count, dstr(m.summary.sample_sum).c_str(), me.obs.size(), dstr(sum).c_str()));
  std::vector<double> v(me.obs.begin(), me.obs.end());
  const double n = (double)v.size();
  for (size_t i = 0; i < m.summary.quantile.size(); i++) {
    double q = quants[i].quantile, e = quants[i].error, x = m.summary.quantile[i].value;
    if (v.empty()) { require(std::isnan(x), std::string(when) + ": quantile of an empty summary is " + dstr(x)); continue; }
    auto lo = std::lower_bound(v.begin(), v.end(), x), hi = std::upper_bound(v.begin(), v.end(), x);
    require(lo != hi, fmt("%s: quantile %g is %s, a value of which no observation succeeded", when, q, dstr(x).c_str()));
    double l = (double)(lo - v.begin()) + 1, u = (double)(hi - v.begin()), slack = 2 * e * n + 8;
    require(l <= q * n + slack && u >= q * n - slack, fmt("%s: quantile %g of %zu observations has rank %g..%g, expected %g within %g", when, q, v.size(), l, u, q * n, slack));
  }
}
void check_hist(const ClientMetric& m, u64 n, double sum, const char* when) {
  require(m.histogram.sample_count == n && m.histogram.sample_sum == sum, fmt("%s: histogram shows %llu observations with sum %s instead of %llu with sum %s", when, (unsigned long long)m.histogram.sample_count, dstr(m.histogram.sample_sum).c_str(), (unsigned long long)n, dstr(sum).c_str()));
}

void run(const Plan& p) {
  const int nt = p.threads();
  World* w = new World;
  {
    API;
    w->reg.reset(new Registry(Registry::InsertBehavior::Merge));
    w->strict.reset(new Registry(Registry::InsertBehavior::Throw));
    Labels cl{{"const", "c"}};
    w->fc = (Family<Counter>*)reg_fam(*w->reg, 0, fam_names[0], "h", cl);
    w->fg = (Family<Gauge>*)reg_fam(*w->reg, 1, fam_names[1], "h", cl);
    w->fh = (Family<Histogram>*)reg_fam(*w->reg, 2, fam_names[2], "h", cl);
    w->fi = (Family<Info>*)reg_fam(*w->reg, 3, fam_names[3], "h", cl);
    w->fs = (Family<Summary>*)reg_fam(*w->reg, 4, fam_names[4], "h", cl);
    w->shared = &w->fs->Add({{"shared", "1"}}, quants, std::chrono::hours(1000), 3);
    w->sharedh = &w->fh->Add({{"shared", "1"}}, bounds);
  }
  std::vector<Mine> mine(nt);
  for (int i = 0; i < nt; i++) {
    // a summary of its own for every thread, outside any family
    API;
    mine[i].s = new Summary(quants, std::chrono::hours(1000), (int)p.get("buckets", 2));
    mine[i].hi = new Histogram(bounds);
  }
  Team t;
  for (int i = 0; i < nt; i++)
    t.go([&, i]() {
      Mine& me = mine[i];
      for (auto& o : p.ops) {
        if (o.th != i) continue;
        dsim::log_event((u64)o.k, (u64)i);
        const int type = (int)(o.a % NT);
        const std::string own = fmt("%d-%lld", i, (long long)(o.a / NT));
        const Labels l{{"own", own}};
        const bool sweep = o.c == 0;
        // runs f with the n-th allocation failing, for n = 1, 2, ... until it gets through
        // (or only once with the given n); done(rc) is called when it did
        auto go = [&](const std::function<void()>& f, const std::function<void()>& unchanged) -> int {
          for (i64 n = sweep ? 1 : o.c; n < 300; n++) {
            Try r = attempt(n, f);
            if (!r.fired) { if (r.rc == 1) fail(std::string(names[o.k]) + " reports that memory is exhausted when it is not"); return r.rc; }
            if (r.rc == 0) dsim::probe(2);
            if (r.rc != 1) return r.rc;
            dsim::probe(3);
            if (unchanged) unchanged();
            if (!sweep && o.b == 0) return 1;     // not repeated
            if (!sweep) { n = 299; Try q = attempt(-1, f); if (q.rc == 1) fail("bad_alloc without a failing allocation"); return q.rc; }
          }
          fail(std::string(names[o.k]) + " failed for every allocation");
        };
        auto own_ok = [&](const char* when) {
          std::vector<MetricFamily> v;
          { API; v = w->reg->Collect(); }
          check_registry(v, i, me, when);
        };
        std::string when = std::string("after a failed ") + names[o.k];
        auto same = [&]() { own_ok(when.c_str()); };
        switch (o.k) {
          case REG: {
            std::string n = fmt("fam_%d_%lld", i, (long long)(o.a / NT));
            void* q = nullptr;
            auto it = me.fams.find(n);
            bool conflict = it != me.fams.end() && it->second.type != type;
            const std::string help = "some help text that is not short";
            const Labels cl{{"cl", "a rather long constant label"}};
            int rc = go([&]() { q = reg_fam(*w->reg, type, n, help, cl); }, same);
            if (rc == 1) break;
            if (conflict) { require(rc == 2, "a conflicting registration was accepted"); same(); break; }
            require(rc == 0, "a registration failed although memory was available");
            if (it != me.fams.end()) { require(q == it->second.p, "merging a family returned another one"); break; }
            me.fams[n] = {type, q};
            // one metric, so that collections show the family
            API;
            switch (type) {
              case 0: ((Family<Counter>*)q)->Add({}); break;
              case 1: ((Family<Gauge>*)q)->Add({}); break;
              case 2: ((Family<Histogram>*)q)->Add({}, bounds); break;
              case 3: ((Family<Info>*)q)->Add({}); break;
              default: ((Family<Summary>*)q)->Add({}, quants);
            }
            break;
          }
          case REGBAD: {
            const std::string n = o.b ? "0bad" : "counters", help = "help help help help help";
            const Labels cl{{o.b == 2 ? "__x" : "lbl", "a rather long constant label"}};
            const std::string nm = o.b == 2 ? fmt("fam_%d_bad", i) : n;
            int ty = o.b ? type : 1 + type % 4;
            int rc = go([&]() { reg_fam(o.b ? *w->strict : *w->reg, ty, nm, help, cl); }, same);
            require(rc == 1 || rc == 2, "an invalid registration was accepted");
            if (o.b) { API; require(w->strict->Collect().empty(), "a refused registration is visible"); }
            break;
          }
          case UNREG: {
            if (me.fams.empty()) break;
            auto it = me.fams.begin();
            std::advance(it, o.a % (i64)me.fams.size());
            bool ok = false;
            int rc = go([&]() { ok = unreg_fam(*w->reg, it->second); }, same);
            if (rc == 1) break;
            require(ok, "Remove does not know a family");
            me.fams.erase(it);
            break;
          }
          case ADD: {
            void* q = nullptr;
            auto it = me.mets.find({type, own});
            int rc = go([&]() { q = add_met(*w, type, l); }, same);
            if (rc == 1) break;
            require(rc == 0, "Add threw although memory was available");
            if (it != me.mets.end()) require(it->second == q, "Add of existing labels returned another metric");
            else me.mets[{type, own}] = q;
            break;
          }
          case ADDBAD: {
            Labels bad = l;
            bad[o.b % 2 ? "const" : "__reserved"] = "value value value value";
            int rc = go([&]() { add_met(*w, type, bad); }, same);
            require(rc == 1 || rc == 2, "labels that are invalid were accepted");
            same();
            break;
          }
          case REMOVE: {
            auto it = me.mets.find({type, own});
            if (it == me.mets.end()) break;
            int rc = go([&]() { rem_met(*w, type, it->second); }, same);
            if (rc == 1) break;
            me.val.erase({type, own});
            me.mets.erase(it);
            break;
          }
          case HAS: {
            bool b = false;
            int rc = go([&]() { b = has_met(*w, type, l); }, same);
            if (rc == 0) require(b == (me.mets.count({type, own}) != 0), "Has is wrong");
            break;
          }
          case CINC: {
            auto it = me.mets.find({0, own});
            if (it == me.mets.end()) break;
            if (go([&]() { ((Counter*)it->second)->Increment(o.x); }, same) == 0) me.val[{0, own}] += o.x;
            break;
          }
          case HOBS: if (go([&]() { me.hi->Observe(o.x); }, nullptr) == 0) { me.hn++; me.hsum += o.x; } break;
          case HMULTI: {
            std::vector<double> v{1, 2, 0, 1};
            if (o.b == 1) v.pop_back();
            int rc = go([&]() { me.hi->ObserveMultiple(v, o.x); }, nullptr);
            if (o.b == 1) { require(rc == 1 || rc == 3, "a bulk observation of the wrong size was accepted"); break; }
            if (rc == 0) { me.hn += 4; me.hsum += o.x; }
            break;
          }
          case SBURST: {
            for (i64 k = 0; k < o.a; k++) me.obs.insert(o.x + (double)(o.b ? k : o.a - k));
            API;
            for (i64 k = 0; k < o.a; k++) me.s->Observe(o.x + (double)(o.b ? k : o.a - k));
            break;
          }
          case SOBS:
            for (i64 k = 0; k < 1 + o.a % 6; k++) {
              double x = o.x + 0.5 + (double)k;
              if (go([&]() { me.s->Observe(x); }, nullptr) == 0) me.obs.insert(x);
            }
            break;
          case SHOBS: if (go([&]() { w->shared->Observe(o.x); }, nullptr) == 0) { me.shared_ok++; me.shared_sum += o.x; } break;
          case SCHECK: {
            ClientMetric m;
            int rc = go([&]() { m = me.s->Collect(); }, nullptr);
            if (rc == 0) check_summary(m, me, "Summary::Collect");
            ClientMetric m2;
            rc = go([&]() { m2 = me.hi->Collect(); }, nullptr);
            if (rc == 0) check_hist(m2, me.hn, me.hsum, "Histogram::Collect");
            break;
          }
          case COLLECT: {
            std::vector<MetricFamily> v;
            int rc = go([&]() { v = collect_fam(*w, type); }, same);
            if (rc) break;
            bool any = false;
            for (auto& x : me.mets) if (x.first.first == type) any = true;
            if (any) require(v.size() == 1, "a collection lost the family");
            if (v.size()) { require(v[0].name == fam_names[type] && v[0].help == "h", "wrong name or help"); check_family(v[0], type, i, me, "Family::Collect"); }
            break;
          }
          case RCOLLECT: {
            std::vector<MetricFamily> v;
            if (go([&]() { v = w->reg->Collect(); }, nullptr) == 0) check_registry(v, i, me, "Registry::Collect");
            break;
          }
          case SER: case SEROS: {
            std::vector<MetricFamily> v;
            { API; v = w->reg->Collect(); }
            std::string want, got;
            {
              // the reference: each family by itself, memory available
              API;
              TextSerializer ts;
              std::ostringstream os;
              ts.Serialize(os, v);
              want = os.str();
            }
            if (o.k == SER) {
              int rc = go([&]() { TextSerializer ts; got = ts.Serialize(v); }, nullptr);
              if (rc == 0) require(got == want, fmt("Serialize returned a text of %zu bytes instead of %zu without reporting the failed allocation", got.size(), want.size()));
            } else {
              bool ok = false;
              int rc = go([&]() { TextSerializer ts; std::ostringstream os; if (o.b) os.exceptions(std::ios::badbit); ts.Serialize(os, v); ok = os.good(); got = os.str(); }, nullptr);
              if (rc == 0 && ok) require(got == want, "a stream that reports no error received an incomplete text");
            }
            break;
          }
          case MAKE: {
            const Labels cl{{"k", "a constant label of some length"}};
            go([&]() {
              switch (o.a % 6) {
                case 0: { Summary s(quants, std::chrono::milliseconds(100), 4); s.Observe(1); break; }
                case 1: { Histogram x(bounds); break; }
                case 2: { Registry r; reg_fam(r, (int)o.b, "a_name_that_is_long_enough_to_be_on_the_heap", "h", cl); break; }
                case 3: { Family<Gauge> f("a_name_that_is_long_enough_to_be_on_the_heap", "h", cl); f.Add({{"x", "y"}}); break; }
                case 4: { Summary s(Summary::Quantiles(quants), std::chrono::milliseconds(100), 2); break; }
                default: { Family<Summary> f("s", "", cl); f.Add({}, quants, std::chrono::milliseconds(1), 5).Observe(2); break; }
              }
            }, nullptr);
            break;
          }
        }
      }
      std::vector<MetricFamily> v;
      ClientMetric m, mh;
      { API; v = w->reg->Collect(); m = me.s->Collect(); mh = me.hi->Collect(); }
      check_registry(v, i, me, "at the end");
      check_summary(m, me, "at the end");
      check_hist(mh, me.hn, me.hsum, "at the end");
    });
  t.join();
  u64 n = 0;
  double sum = 0;
  for (auto& m : mine) { n += m.shared_ok; sum += m.shared_sum; }
  ClientMetric c;
  { API; c = w->shared->Collect(); }
  require(c.summary.sample_count == n && c.summary.sample_sum == sum, fmt("a shared summary shows %llu observations instead of %llu", (unsigned long long)c.summary.sample_count, (unsigned long long)n));
  { API; for (auto& m : mine) { delete m.s; delete m.hi; } w->reg.reset(); w->strict.reset(); }
  c = ClientMetric();
  check_leaks("every object was destroyed");
}

void gen(Plan& p, Rng& r) {
  int th = 1 + (int)r.n(3), total = 3 + (int)r.n(22);
  p.cfg["buckets"] = r.of<i64>({1, 2, 3});
  std::vector<int> kinds;
  for (int k = 0; k < NK; k++) if (r.pct(55)) kinds.push_back(k);
  if (kinds.empty()) kinds = {ADD, COLLECT};
  bool summ = r.pct(40);
  double base = 1000;
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th), k = kinds[r.n(kinds.size())];
    if (summ && r.pct(60)) k = r.of<int>({SBURST, SOBS, SOBS, SCHECK});
    i64 a = (i64)r.n(NT) + NT * (i64)r.n(3), b = r.n(3), c = r.pct(50) ? 0 : r.in(1, 12);
    if (k == SBURST) { a = r.of<i64>({1, 7, 100, 240, 495, 497, 498, 499, 500, 501}); b = r.n(2); }
    base += r.pct(50) ? 1000 : -37;
    p.add(t, k, a, b, c, k == HOBS || k == CINC ? (double)r.in(0, 6) : base);
  }
  if (r.pct(20)) set_fault(p, dsim::F_CAS, 200000, 6);
}
const char* const probes[] = {"allocation_failed", "-", "failure_absorbed_by_the_call", "bad_alloc_reported", nullptr};
Reg r_({"oom", gen, run, probes, "all metric types, Family, Registry, TextSerializer (instrumented C++)", "allocator (the n-th allocation of a call fails), clocks, scheduler, mutex"});
}  // namespace
