// C25: what is used and given up again, over and over, leaves nothing behind.
#include "h.h"
#include <prometheus/counter.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/histogram.h>
#include <prometheus/info.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>
#include <prometheus/text_serializer.h>
#include "steady.h"
using namespace h;
using namespace prometheus;

namespace {
enum K { METRIC, FAMILY, AGAIN, REFUSED, OBSERVE, COLLECT, SERIALIZE, REGISTRY, PAUSE, ALLOC, NK };

void run(const Plan& p) {
  const int nt = p.threads(), rounds = (int)p.get("rounds");
  struct World {
    Registry merge{Registry::InsertBehavior::Merge}, strict{Registry::InsertBehavior::Throw};
    Family<Counter>* fc; Family<Gauge>* fg; Family<Histogram>* fh; Family<Summary>* fs; Family<Info>* fi;
    Histogram* hi; Summary* su;
  };
  World* w;
  const std::string pad(40, 'x');       // longer than what a string stores in place
  {
    API;
    w = new World;
    w->fc = &BuildCounter().Name("counter_" + pad).Help(pad).Labels({{"constant", pad}}).Register(w->merge);
    w->fg = &BuildGauge().Name("gauge_" + pad).Register(w->strict);
    w->fh = &BuildHistogram().Name("hist_" + pad).Register(w->merge);
    w->fs = &BuildSummary().Name("summ_" + pad).Register(w->strict);
    w->fi = &BuildInfo().Name("info_" + pad).Register(w->merge);
    w->hi = &w->fh->Add({{"stays", pad}}, Histogram::BucketBoundaries{1, 2});
    w->su = &w->fs->Add({{"stays", pad}}, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}}, std::chrono::seconds(1), 3);
    w->fc->Add({{"stays", pad}}); w->fg->Add({{"stays", pad}}); w->fi->Add({{"stays", pad}});
  }
  bool observing = false;
  for (auto& o : p.ops) observing |= o.k == OBSERVE;
  // (a sketch keeps room for the most samples it ever held)
  steady::Account acc(rounds, observing ? 32768 : 1024);
  std::vector<int> serial(nt, 10000000);
  for (int round = 0; round < rounds; round++) {
    Team t;
    for (int i = 0; i < nt; i++)
      t.go([&, i]() {
        auto labels = [&]() { return Labels{{"l" + pad, std::to_string(i) + std::to_string(serial[i]++) + pad}}; };
        auto name = [&]() { return "name_" + std::to_string(i) + "_" + std::to_string(serial[i]++) + pad; };
        auto ops = [&](const Op& o, bool may_fail) {
          try {
            switch (o.k) {
              case METRIC: {
                Labels l = labels();
                API;
                switch (o.a % 5) {
                  case 0: { auto& m = w->fc->Add(l); m.Increment(); if (o.b & 1 && !w->fc->Has(l)) fail("Has denies a metric"); w->fc->Remove(&m); break; }
                  case 1: { auto& m = w->fg->Add(l, 3.0); w->fg->Remove(&m); break; }
                  case 2: { auto& m = w->fh->Add(l, Histogram::BucketBoundaries{1, 2, 3}); w->fh->Remove(&m); break; }
                  case 3: { auto& m = w->fs->Add(l, Summary::Quantiles{{0.5, 0.05}}, std::chrono::seconds(1), 2); if (!may_fail) m.Observe(1); w->fs->Remove(&m); break; }
                  default: { auto& m = w->fi->Add(l); w->fi->Remove(&m); break; }
                }
                break;
              }
              case FAMILY: {
                std::string n = name();
                Labels l{{"c" + pad, pad}};
                Registry& reg = o.b & 1 ? w->strict : w->merge;
                API;
                bool found = true;
                switch (o.a % 5) {
                  case 0: { auto& f = BuildCounter().Name(n).Help(n).Labels(l).Register(reg); struct G { Registry& r; Family<Counter>& f; bool& b; ~G() { b = r.Remove(f); } } g{reg, f, found}; f.Add({}); break; }
                  case 1: { auto& f = BuildGauge().Name(n).Help(n).Labels(l).Register(reg); struct G { Registry& r; Family<Gauge>& f; bool& b; ~G() { b = r.Remove(f); } } g{reg, f, found}; f.Add({}); break; }
                  case 2: { auto& f = BuildHistogram().Name(n).Help(n).Labels(l).Register(reg); found = reg.Remove(f); break; }
                  case 3: { auto& f = BuildSummary().Name(n).Help(n).Labels(l).Register(reg); found = reg.Remove(f); break; }
                  default: { auto& f = BuildInfo().Name(n).Help(n).Labels(l).Register(reg); found = reg.Remove(f); break; }
                }
                if (!found) fail("Remove does not find a family");
                break;
              }
              case AGAIN: {      // what is there already
                API;
                switch (o.a % 3) {
                  case 0: w->fc->Add({{"stays", pad}}).Increment(); break;
                  case 1: if (&BuildCounter().Name("counter_" + pad).Help(pad).Labels({{"constant", pad}}).Register(w->merge) != w->fc) fail("the family is another one"); break;
                  default: w->fi->Add({{"stays", pad}}); break;
                }
                break;
              }
              case REFUSED: {
                bool threw = false;
                Labels l = labels();
                {
                  API;
                  try {
                    switch (o.a % 8) {
                      case 0: w->fc->Add({{"9bad", l.begin()->second}}); break;
                      case 1: w->fc->Add({{"constant", l.begin()->second}}); break;
                      case 2: w->fh->Add({{"le", pad}}, Histogram::BucketBoundaries{1}); break;
                      case 3: BuildGauge().Name("9" + l.begin()->second).Register(w->merge); break;
                      case 4: BuildCounter().Name("gauge_" + pad).Register(w->strict); break;
                      case 5: BuildGauge().Name("gauge_" + pad).Register(w->strict); break;
                      case 6: w->hi->ObserveMultiple({1, 2, 3, 4, 5}, 7); break;
                      default: w->fh->Add(l, Histogram::BucketBoundaries{3, 2, 1}); break;
                    }
                  } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { threw = true; }
                }
                if (!threw && o.a % 8 != 7) fail("a call that must be refused is accepted");
                if (!threw) { API; w->fh->Remove(&w->fh->Add(l, Histogram::BucketBoundaries{1})); }
                break;
              }
              case OBSERVE: { API; for (i64 k = 0; k < o.a; k++) { w->su->Observe((double)(k * 7919 % 101)); w->hi->Observe((double)(k % 4)); } break; }
              case COLLECT: { API; auto v = (o.b & 1 ? w->merge : w->strict).Collect(); if (v.empty()) fail("a collection is empty"); auto m = w->su->Collect(); (void)m; break; }
              case SERIALIZE: { API; TextSerializer s; std::string x = s.Serialize(w->merge.Collect()); if (x.empty()) fail("nothing serialised"); break; }
              case REGISTRY: {
                API;
                auto r = std::make_shared<Registry>();
                std::weak_ptr<Collectable> wk = r;
                BuildGauge().Name("g").Register(*r).Add({{"a", pad}});
                auto v = wk.lock()->Collect();
                r.reset();
                if (!wk.expired()) fail("a registry outlives its last owner");
                break;
              }
              case PAUSE: dsim::sleep_ns((u64)o.a); break;
            }
          } catch (const std::bad_alloc&) { if (!may_fail) throw; dsim::probe(1); }
        };
        for (auto& o : p.ops) {
          if (o.th != i) continue;
          if (o.k == ALLOC) { Op q = o; q.k = (int)o.c; dsim::arm_alloc(1 + (o.b >> 1) % 14); ops(q, true); dsim::arm_alloc(-1); }
          else ops(o, false);
        }
      });
    t.join();
    dsim::sleep_ns(5000000000ull);     // every window passes
    { API; auto m = w->su->Collect(); auto v = w->merge.Collect(); }
    acc.round(round);
  }
  acc.judge();
  { API; delete w; }
  check_leaks("every object was destroyed");
}
void gen(Plan& p, Rng& r) {
  int nt = 1 + (int)r.n(3);
  p.cfg["rounds"] = r.pct(70) ? 9 + (i64)r.n(4) : 20 + (i64)r.n(30);
  std::vector<int> kinds;
  for (int k = 0; k < NK; k++) if (r.pct(60)) kinds.push_back(k);
  if (kinds.empty()) kinds = {METRIC, COLLECT};
  int total = nt + (int)r.n(10);
  for (int i = 0; i < total; i++) {
    int k = r.of(kinds), t = i < nt ? i : (int)r.n(nt);
    i64 a = (i64)r.n(40), b = (i64)r.n(64), c = (i64)r.of<int>({METRIC, METRIC, FAMILY, REFUSED, COLLECT, SERIALIZE, AGAIN});
    if (k == PAUSE) a = r.in(1, 700000000);
    if (k == OBSERVE) a = r.of<i64>({1, 20, 100, 501});
    p.add(t, k, a, b, c);
  }
  if (r.pct(30)) set_fault(p, dsim::F_CAS, 200000, 30);
  if (r.pct(30)) { set_fault(p, dsim::F_STALL, 3000, 10); p.cfg["stall_max"] = 1000000000; }
  p.cfg["max_sync"] = 4000000; p.cfg["max_plain"] = 1000000000;
}
const char* const probes[] = {"-", "calls_failed_for_want_of_memory", nullptr};
Reg r_({"steady", gen, run, probes, "all metric types, Family, Registry, TextSerializer (instrumented C++)", "clocks, scheduler, mutex, allocator"});
}  // namespace
