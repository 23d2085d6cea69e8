// C08 (races, memory, leaks), C10 (deadlock freedom, isolation of stalls).
#include "h.h"
#include <prometheus/collectable.h>
#include <prometheus/counter.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/histogram.h>
#include <prometheus/info.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>
#include <prometheus/text_serializer.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { C_INC, G_SET, G_TIME, H_OBS, H_MULTI, H_RESET, S_OBS, NEWFAM, DROPFAM, ADDM, DROPM, COLLECT, SERIALIZE, WEAKCOLLECT, DROPREG, HAS, C_RESET, WALL, PAUSE, ADDX, DROPX, HASX, FCOLLECT, DIRECT, ADDBAD, NK };
const char* const names[] = {"Counter::Increment", "Gauge::Set", "Gauge::SetToCurrentTime", "Histogram::Observe", "Histogram::ObserveMultiple", "Histogram::Reset", "Summary::Observe", "Register", "Registry::Remove", "Family::Add", "Family::Remove", "Registry::Collect", "Serialize", "weak Collect", "drop registry", "Family::Has", "Counter::Reset", "wall step", "pause", "Family::Add (any type)", "Family::Remove (any type)", "Family::Has (any type)", "Family::Collect", "metric Collect", "refused calls"};

// A collectable of the program itself, which uses the library from inside Collect().
struct Calling : Collectable {
  Registry* inner;
  Counter* hits;
  std::vector<MetricFamily> Collect() const override {
    hits->Increment();
    auto v = inner->Collect();
    MetricFamily f;
    f.name = "calling";
    f.type = MetricType::Gauge;
    f.metric.resize(1);
    v.push_back(f);
    return v;
  }
};

struct Shared {
  Family<Counter>* fc; Family<Gauge>* fg; Family<Histogram>* fh; Family<Summary>* fs; Family<Info>* fi;
  Counter* c; Gauge* g; Histogram* hi; Summary* s;
};

void run(const Plan& p) {
  const int nt = p.threads();
  struct World {
    std::shared_ptr<Registry> reg;
    std::shared_ptr<Registry> reg2;
    std::shared_ptr<Calling> calling;
    Shared sh;
  };
  World* w = new World;
  {
    API;
    w->reg = std::make_shared<Registry>();
    w->reg2 = std::make_shared<Registry>(Registry::InsertBehavior::Throw);
    w->sh.fc = &BuildCounter().Name("c_total").Help("counts").Labels({{"inst", "x"}}).Register(*w->reg);
    w->sh.fg = &BuildGauge().Name("g").Help("").Register(*w->reg);
    w->sh.fh = &BuildHistogram().Name("h").Register(*w->reg);
    w->sh.fs = &BuildSummary().Name("s").Register(*w->reg);
    w->sh.fi = &BuildInfo().Name("i").Register(*w->reg);
    w->sh.c = &w->sh.fc->Add({{"a", "1"}});
    w->sh.g = &w->sh.fg->Add({{"a", "1"}});
    w->sh.hi = &w->sh.fh->Add({{"a", "1"}}, Histogram::BucketBoundaries{1, 2, 4});
    w->sh.s = &w->sh.fs->Add({{"a", "1"}}, Summary::Quantiles{{0.5, 0.05}, {0.9, 0.01}}, std::chrono::milliseconds(50), 3);
    w->sh.fi->Add({{"version", "1"}});
    w->calling = std::make_shared<Calling>();
    w->calling->inner = w->reg2.get();
    w->calling->hits = &BuildCounter().Name("hits").Register(*w->reg2).Add({});
  }
  const i64 inc_total = [&]() { i64 n = 0; for (auto& o : p.ops) if (o.k == C_INC) n += (i64)o.x; return n; }();
  bool reset = false;
  for (auto& o : p.ops) if (o.k == C_RESET) reset = true;

  // registries that belong to one thread and that others see through weak references
  struct Slot { std::weak_ptr<Collectable> weak; };
  std::vector<Slot> slots(nt);
  std::vector<std::shared_ptr<Registry>> owned(nt);
  for (int i = 0; i < nt; i++) {
    API;
    owned[i] = std::make_shared<Registry>();
    BuildGauge().Name("own").Register(*owned[i]).Add({{"t", std::to_string(i)}}).Set(i);
    slots[i].weak = owned[i];
  }
  Team t;
  for (int i = 0; i < nt; i++)
    t.go([&, i]() {
      Registry& reg = *w->reg;
      Shared& sh = w->sh;
      std::vector<std::pair<Family<Gauge>*, Gauge*>> fams;
      std::vector<Counter*> mets;
      int serial = 0;
      double last = 0;
      struct Own { int type; void* m; Labels l; };
      std::vector<Own> own;
      for (auto& o : p.ops) {
        if (o.th != i) continue;
        switch (o.k) {
          case C_INC: { API; sh.c->Increment(o.x); break; }
          case C_RESET: { API; sh.c->Reset(); break; }
          case G_SET: { API; if (o.a) sh.g->Set(o.x); else sh.g->Decrement(o.x); break; }
          case G_TIME: { API; sh.g->SetToCurrentTime(); break; }
          case H_OBS: { API; sh.hi->Observe(o.x); break; }
          case H_MULTI: { std::vector<double> v{1, 0, 2, 1}; API; sh.hi->ObserveMultiple(v, 9); break; }
          case H_RESET: { API; sh.hi->Reset(); break; }
          case S_OBS: { API; for (i64 k = 0; k < o.a; k++) sh.s->Observe(o.x + (double)k); break; }
          case NEWFAM: {
            std::string n = o.a ? fmt("fam_%d_%d", i, serial++) : "fam_shared";
            API;
            auto& f = BuildGauge().Name(n).Help("x").Register(reg);
            auto& g = f.Add({{"t", n}});
            g.Increment();
            if (o.a) fams.push_back({&f, &g});
            // again, with a help text: the family stays what it is
            else switch (serial++ % 4) {
              case 0: if (&BuildGauge().Name("g").Help("again").Register(reg) != sh.fg) fail("registering a family again gave another one"); break;
              case 1: if (&BuildHistogram().Name("h").Help("again").Register(reg) != sh.fh) fail("registering a family again gave another one"); break;
              case 2: if (&BuildSummary().Name("s").Help("again").Register(reg) != sh.fs) fail("registering a family again gave another one"); break;
              default: if (&BuildInfo().Name("i").Help("again").Register(reg) != sh.fi) fail("registering a family again gave another one"); break;
            }
            break;
          }
          case DROPFAM: if (!fams.empty()) { API; auto x = fams.back(); fams.pop_back(); x.second->Decrement(); if (!reg.Remove(*x.first)) fail("Remove did not find a registered family"); } break;
          case ADDM: {
            Labels l{{"own", fmt("%d-%d", i, serial++)}};
            API;
            auto& c = sh.fc->Add(l);
            c.Increment(2);
            mets.push_back(&c);
            if (o.a) { auto& d = sh.fc->Add({{"both", std::to_string(o.a)}}); d.Increment(); }
            break;
          }
          case DROPM: if (!mets.empty()) { API; Counter* c = mets.back(); mets.pop_back(); if (c->Value() != 2) fail("an owned metric changed its value"); sh.fc->Remove(c); } break;
          case HAS: { Labels l{{"a", "1"}}; API; if (!sh.fh->Has(l)) fail("Has denies a metric that was never removed"); break; }
          case COLLECT: {
            API;
            auto v = reg.Collect();
            if (v.size() < 5) fail("a collection lost a family");
            for (auto& f : v)
              if (f.name == "c_total") {
                bool found = false;
                for (auto& m : f.metric)
                  for (auto& l : m.label) if (l.name == "a") { found = true; if (!reset) { if (m.counter.value < last) fail("a counter went backwards"); last = m.counter.value; } }
                if (!found) fail("a collection lost a metric");
              }
            break;
          }
          case SERIALIZE: {
            API;
            auto v = reg.Collect();
            TextSerializer ts;
            std::ostringstream os;
            ts.Serialize(os, v);
            std::string s = os.str();
            if (s.find("c_total{") == std::string::npos || s.find("s_count{") == std::string::npos || s[s.size() - 1] != '\n') fail("serialised text lost a family");
            break;
          }
          case WEAKCOLLECT: {
            API;
            if (o.a == 9) { auto v = w->calling->Collect(); if (v.size() != 2) fail("collecting through a collectable lost a family"); break; }
            auto c = slots[o.a % nt].weak.lock();
            if (c) {
              dsim::probe(0);
              auto v = c->Collect();
              if (v.size() != 1 || v[0].metric.size() != 1 || v[0].metric[0].gauge.value < (double)(o.a % nt)) fail("a collection through a weak reference is incomplete");
            } else dsim::probe(1);
            break;
          }
          case DROPREG: { API; owned[i].reset(); break; }
          case ADDX: {
            Own x{(int)(o.a % 5), nullptr, Labels{{"x", fmt("%d-%d", i, serial++)}}};
            {
              API;
              switch (x.type) {
                case 0: { auto& m = sh.fc->Add(x.l); m.Increment(); x.m = &m; break; }
                case 1: { auto& m = sh.fg->Add(x.l, 4.0); m.Decrement(); x.m = &m; break; }
                case 2: { auto& m = sh.fh->Add(x.l, Histogram::BucketBoundaries{1, 2}); m.Observe(1.5); x.m = &m; break; }
                case 3: { auto& m = sh.fs->Add(x.l, Summary::Quantiles{{0.5, 0.05}}); m.Observe(1); x.m = &m; break; }
                default: x.m = &sh.fi->Add(x.l); break;
              }
            }
            own.push_back(x);
            break;
          }
          case DROPX: {
            if (own.empty()) break;
            Own x = own[(size_t)o.b % own.size()];
            own.erase(own.begin() + (long)((size_t)o.b % own.size()));
            bool had = true;
            {
              API;
              switch (x.type) {
                case 0: had = sh.fc->Has(x.l); sh.fc->Remove((Counter*)x.m); break;
                case 1: had = sh.fg->Has(x.l); sh.fg->Remove((Gauge*)x.m); break;
                case 2: had = sh.fh->Has(x.l); sh.fh->Remove((Histogram*)x.m); break;
                case 3: had = sh.fs->Has(x.l); sh.fs->Remove((Summary*)x.m); break;
                default: had = sh.fi->Has(x.l); sh.fi->Remove((Info*)x.m); break;
              }
            }
            if (!had) fail("Has denies a metric that its thread has not removed");
            break;
          }
          case HASX: {
            Labels l{{"a", "1"}}, v{{"version", "1"}};
            bool ok;
            { API; switch (o.b % 5) { case 0: ok = sh.fc->Has(l); break; case 1: ok = sh.fg->Has(l); break; case 2: ok = sh.fh->Has(l); break; case 3: ok = sh.fs->Has(l); break; default: ok = sh.fi->Has(v); break; } }
            if (!ok) fail("Has denies a metric that was never removed");
            break;
          }
          case FCOLLECT: {
            size_t n;
            { API; switch (o.b % 5) { case 0: n = sh.fc->Collect().size(); break; case 1: n = sh.fg->Collect().size(); break; case 2: n = sh.fh->Collect().size(); break; case 3: n = sh.fs->Collect().size(); break; default: n = sh.fi->Collect().size(); break; } }
            if (n != 1) fail("collecting a family with metrics yields nothing");
            break;
          }
          case DIRECT: {
            API;
            switch (o.b % 5) {
              case 0: { auto m = sh.hi->Collect(); if (m.histogram.bucket.size() != 4) fail("a histogram lost a bucket"); break; }
              case 1: { auto m = sh.s->Collect(); if (m.summary.quantile.size() != 2) fail("a summary lost a quantile"); break; }
              case 2: { auto m = sh.g->Collect(); (void)m; sh.g->Increment(2); break; }
              case 3: { (void)sh.c->Value(); (void)sh.g->Value(); break; }
              default: { if (sh.fc->GetName() != "c_total" || sh.fc->GetConstantLabels().size() != 1) fail("a family lost its name or labels"); break; }
            }
            break;
          }
          case ADDBAD: {
            Labels bad{{"9bad", "1"}}, clash{{"inst", "1"}};
            API;
            bool threw = false;
            try {
              switch (o.b % 5) {
                case 0: sh.fc->Add(bad); break;
                case 1: sh.fc->Add(clash); break;
                case 2: sh.hi->ObserveMultiple({1, 2}, 3); break;
                case 3: BuildCounter().Name("g").Register(reg); break;
                default: BuildGauge().Name("0bad").Register(reg); break;
              }
            } catch (const std::exception&) { threw = true; }
            if (!threw) fail("a call that must be refused is accepted");
            break;
          }
          case WALL: dsim::jump_wall(o.a * 1000000000ll); break;
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
        }
      }
      API;
      fams.clear(); fams.shrink_to_fit();
      mets.clear(); mets.shrink_to_fit();
      dsim::log_event((u64)i, (u64)serial);
    });
  t.join();
  {
    API;
    if (!reset && w->sh.c->Value() != (double)inc_total) fail(fmt("the counter shows %s after increments of %lld", dstr(w->sh.c->Value()).c_str(), (long long)inc_total));
    for (auto& o : owned) o.reset();
    for (auto& s : slots) s.weak.reset();
    w->calling.reset();
    w->reg.reset();
    w->reg2.reset();
  }
  check_leaks("every object was destroyed");
}

void gen(Plan& p, Rng& r) {
  int th = 2 + (int)r.n(4), total = 6 + (int)r.n(40);
  std::vector<int> kinds;
  for (int k = 0; k < NK; k++) if (r.pct(60)) kinds.push_back(k);
  if (kinds.empty()) kinds = {C_INC, COLLECT};
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th), k = kinds[r.n(kinds.size())];
    i64 a = r.n(2);
    double x = (double)r.in(0, 6);
    i64 b = (i64)r.n(20);
    if (k == ADDX) a = (i64)r.n(5);
    if (k == S_OBS) a = r.of<i64>({1, 1, 1, 5, 501});
    if (k == WEAKCOLLECT) a = r.pct(25) ? 9 : (i64)r.n(th);
    if (k == DROPREG && !r.pct(40)) k = WEAKCOLLECT, a = (i64)r.n(th);
    if (k == WALL) a = r.in(-5000, 5000);
    if (k == PAUSE) a = r.in(1, 200000000);
    if (k == C_INC) x = (double)r.in(0, 5);
    p.add(t, k, a, b, 0, x);
  }
  if (r.pct(40)) set_fault(p, dsim::F_CAS, 200000, 10);
  if (r.pct(40)) { set_fault(p, dsim::F_STALL, 5000, 5); p.cfg["stall_max"] = r.of<i64>({100000, 1000000000}); }
  if (r.pct(15)) set_fault(p, dsim::F_WALL_JUMP, 300000, 4);
}
const char* const probes[] = {"collected_through_weak_reference", "weak_reference_expired", nullptr};
Reg r1({"mix", gen, run, probes, "all metric types, Family, Registry, TextSerializer (instrumented C++)", "clocks, scheduler, mutex, allocator"});

// ---- a thread that stalls inside one object must not hold up calls on other objects
enum { OBJS = 4 };
void use(int what, Registry& reg, Family<Counter>& fc, Family<Histogram>& fh, Family<Summary>& fs, Histogram& hi, Summary& s, Counter& c, Gauge& g, int salt) {
  switch (what) {
    case 0: { auto v = reg.Collect(); (void)v; break; }
    case 1: { BuildGauge().Name("n" + std::to_string(salt)).Register(reg).Add({}).Set(1); break; }
    case 2: { auto& x = fc.Add({{"n", std::to_string(salt)}}); x.Increment(); if (salt & 1) fc.Remove(&x); break; }
    case 3: { hi.Observe(salt); break; }
    case 4: { auto m = hi.Collect(); (void)m; break; }
    case 5: { s.Observe(salt); break; }
    case 6: { auto m = s.Collect(); (void)m; break; }
    case 7: { c.Increment(); g.Set(salt); break; }
    case 8: { fh.Has({{"x", "y"}}); auto v = fh.Collect(); (void)v; break; }
    case 9: { hi.Reset(); hi.ObserveMultiple({1, 2}, 3); break; }
    case 10: { auto v = fs.Collect(); TextSerializer t; std::ostringstream o; t.Serialize(o, v); break; }
    case 11: { g.SetToCurrentTime(); break; }
    default: { auto v = reg.Collect(); TextSerializer t; auto str = t.Serialize(v); (void)str; break; }
  }
}
void run_iso(const Plan& p) {
  // thread 0 uses object set 0 and stalls; the others use sets of their own
  struct Set { Registry* reg; Family<Counter>* fc; Family<Histogram>* fh; Family<Summary>* fs; Histogram* hi; Summary* s; Counter* c; Gauge* g; };
  const int nt = p.threads();
  const bool same_family = p.get("same_family");
  std::vector<Set> sets;
  Registry* common = new Registry;
  for (int i = 0; i < nt; i++) {
    Set x;
    // metrics of one family are unrelated objects too as long as only the metrics are used
    x.reg = same_family ? common : new Registry;
    x.fc = &BuildCounter().Name("c").Register(*x.reg);
    x.fh = &BuildHistogram().Name("h").Register(*x.reg);
    x.fs = &BuildSummary().Name("s").Register(*x.reg);
    Labels l{{"set", std::to_string(i)}};
    x.c = &x.fc->Add(l);
    x.hi = &x.fh->Add(l, Histogram::BucketBoundaries{1});
    x.s = &x.fs->Add(l, Summary::Quantiles{{0.5, 0.05}}, std::chrono::seconds(1000000));
    x.g = &BuildGauge().Name("g").Register(*x.reg).Add(l);
    sets.push_back(x);
  }
  auto work = [&](int i) {
    Set& x = sets[i];
    int salt = i * 1000;
    for (auto& o : p.ops) {
      if (o.th != i) continue;
      int k = o.k;
      if (same_family && (k == 0 || k == 1 || k == 2 || k == 8 || k == 10 || k == 12)) k = 3 + (int)(o.a % 5);
      API;
      use(k, *x.reg, *x.fc, *x.fh, *x.fs, *x.hi, *x.s, *x.c, *x.g, salt++);
    }
  };
  Team slow, quick;
  slow.go([&]() { work(0); });
  u64 t0 = dsim::now();
  for (int i = 1; i < nt; i++) quick.go([&, i]() { dsim::no_faults(true); dsim::sleep_ns((u64)p.get("delay") * (u64)i); work(i); dsim::no_faults(false); });
  bool ok = quick.join_until(t0 + 20000000000ull);
  if (!ok) {
    char b[1024];
    dsim::thread_block_report(b, sizeof b);
    fail(std::string("calls on unrelated objects wait for a thread that is stalled inside a call on its own object: ") + b);
  }
  if (!dsim::thread_done(slow.ids[0])) dsim::probe(0);
  quick.join();
  slow.join();
}
void gen_iso(Plan& p, Rng& r) {
  p.cfg["same_family"] = r.pct(30);
  p.cfg["delay"] = r.of<i64>({0, 1000, 20000, 200000});
  int th = 2 + (int)r.n(2);
  for (int i = 0; i < th; i++) { int n = 1 + (int)r.n(5); for (int k = 0; k < n; k++) p.add(i, r.n(13), r.n(100)); }
  set_fault(p, dsim::F_STALL, r.of<i64>({30000, 100000, 300000}), 3);
  p.cfg["stall_min"] = 100000000000ll;
  p.cfg["stall_max"] = 1000000000000ll;
}
const char* const probes_iso[] = {"others_finished_while_one_was_stalled", nullptr};
Reg r2({"isolate", gen_iso, run_iso, probes_iso, "all metric types, Family, Registry, TextSerializer (instrumented C++)", "clocks, scheduler, mutex"});
}  // namespace
