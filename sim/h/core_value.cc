// C01: counters and gauges.
#include "h.h"
#include <limits>
#include <prometheus/counter.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/registry.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { INC, INCX, DEC, DECX, SET, RESET, VALUE, COLLECT, NOW, STEPWALL };
const char* const names[] = {"Increment", "Increment", "Decrement", "Decrement", "Set", "Reset", "Value", "Collect", "SetToCurrentTime", "wall clock step"};

void gen(Plan& p, Rng& r) {
  bool gauge = r.pct(60);
  p.cfg["gauge"] = gauge;
  p.cfg["via"] = r.n(3);
  int th = 2 + (int)r.n(3), total = 4 + (int)r.n(16);
  bool now = gauge && r.pct(30), frac = !now && r.pct(25);
  bool resets = r.pct(50), sets = gauge && r.pct(70), neg = r.pct(40);
  u32 rd = (u32)r.of<int>({10, 30, 60});
  bool two = r.pct(25);   // two objects, used by the same threads
  bool odd = !now && r.pct(15);
  i64 u = 1;
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th), k;
    double x = frac ? (double)r.in(1, 1 << 20) / 1024.0 + (double)(u << 20) : (double)(u * (1 + (i64)r.n(3)));
    u = u * 2 > (1 << 28) ? 1 : u * 2;
    if (r.pct(rd)) k = r.pct(60) ? VALUE : COLLECT;
    else if (now && r.pct(40)) k = r.pct(70) ? NOW : STEPWALL;
    else if (sets && r.pct(30)) k = SET;
    else if (resets && r.pct(15)) k = gauge ? SET : RESET, x = gauge ? 0 : x;
    else if (gauge && r.pct(45)) k = r.pct(50) ? DEC : DECX;
    else k = r.pct(30) ? INC : INCX;
    if (odd && r.pct(30)) x = r.of<double>({0.1, 1e-9, 1e300, 1e17, 4294967296.0, 0.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), gauge ? std::numeric_limits<double>::quiet_NaN() : 7.0});
    if (neg && (k == INCX || k == DECX || k == SET) && r.pct(30)) x = -x;
    p.add(t, k, k == STEPWALL ? r.in(-100000, 100000) : 0, 0, two ? (i64)r.n(2) : 0, x);
  }
  if (r.pct(70)) set_fault(p, dsim::F_CAS, (i64)r.of<int>({20000, 200000, 500000, 980000}), r.pct(25) ? 1000 : 20);
  if (now && r.pct(70)) set_fault(p, dsim::F_WALL_JUMP, 300000, 6);
  if (r.pct(15)) { set_fault(p, dsim::F_STALL, 20000, 3); }
}

struct M { double off; int set; };   // set >= 0: value is off + (unknown second within record `set`)

void run(const Plan& p) {
  bool gauge = p.get("gauge"), via = p.get("via") != 0, reg = p.get("via") == 2;
  Registry* registry = new Registry;
  Family<Counter>* fc = nullptr; Family<Gauge>* fg = nullptr;
  Counter* cs[2] = {}; Gauge* gs[2] = {};
  for (int k = 0; k < 2; k++) {
  Counter*& c = cs[k]; Gauge*& g = gs[k];
  if (via && k) { if (gauge) g = &fg->Add({{"a", "c"}}); else c = &fc->Add({{"a", "c"}}); }
  else if (via) {
    if (gauge) { fg = reg ? &BuildGauge().Name("g").Help("h").Register(*registry) : new Family<Gauge>("g", "h", {}); g = &fg->Add({{"a", "b"}}); }
    else { fc = reg ? &BuildCounter().Name("c").Help("h").Register(*registry) : new Family<Counter>("c", "h", {}); c = &fc->Add({{"a", "b"}}); }
  } else { if (gauge) g = new Gauge(); else c = new Counter(); }
  }

  auto collect = [&](i64 k) {
    Counter* c = cs[k]; Gauge* g = gs[k];
    ClientMetric m;
    if (gauge) m = g->Collect(); else m = c->Collect();
    return gauge ? m.gauge.value : m.counter.value;
  };
  auto body = [&](const Op& o, Rec& r) {
    if (o.k == STEPWALL) { dsim::jump_wall(o.a * 1000000000ll); return; }
    Counter* c = cs[o.c]; Gauge* g = gs[o.c];
    API;
    switch (o.k) {
      case INC: if (gauge) g->Increment(); else c->Increment(); break;
      case INCX: if (gauge) g->Increment(o.x); else c->Increment(o.x); break;
      case DEC: if (gauge) g->Decrement(); break;
      case DECX: if (gauge) g->Decrement(o.x); break;
      case SET: if (gauge) g->Set(o.x); break;
      case RESET: if (!gauge) c->Reset(); break;
      case VALUE: r.r = gauge ? g->Value() : c->Value(); break;
      case COLLECT: r.r = collect(o.c); break;
      case NOW: if (gauge) g->SetToCurrentTime(); break;
    }
  };
  auto hist = run_plan(p, body);
  Op fin{99, VALUE, 0, 0, 0, 0, 0};
  for (int k : {VALUE, COLLECT, VALUE, COLLECT}) { fin.k = k; Rec r = begin(fin); body(fin, r); end(r); hist.push_back(r); if (k == COLLECT) fin.c++; }
  dsim::sim_off();
  if (overlaps(hist)) dsim::probe(0);
  auto step = [&](const M& m, const Rec& r, std::vector<M>& out) {
    M n = m;
    switch (r.k) {
      case INC: n.off += 1; break;
      case INCX: if (gauge || r.x >= 0) n.off += r.x; break;
      case DEC: if (gauge) n.off -= 1; break;
      case DECX: if (gauge) n.off -= r.x; break;
      case SET: if (gauge) { n.off = r.x; n.set = -1; } break;
      case RESET: if (!gauge) { n.off = 0; n.set = -1; } break;
      case NOW: if (gauge) { n.off = 0; for (size_t i = 0; i < hist.size(); i++) if (hist[i].inv == r.inv) n.set = (int)i; } break;
      case VALUE: case COLLECT:
        if (m.set < 0) { if (!same(m.off, r.r)) return; }
        else {
          double s = r.r - m.off;
          if (!(s == std::floor(s)) || std::fabs(s) > 1e15 || !dsim::wall_possible(hist[m.set].t_inv, hist[m.set].t_ret, (i64)s)) return;
          n.off = r.r; n.set = -1;
          dsim::probe(2);
        }
        break;
      default: break;
    }
    out.push_back(n);
  };
  const auto both = hist;
  for (i64 which = 0; which < 2; which++) {
  hist.clear();
  for (auto& x : both) if (x.c == which && x.k != STEPWALL) hist.push_back(x);
  int l = linearizable(hist, M{0, -1}, step, [](const M& m) { return std::string((const char*)&m.off, 8) + std::to_string(m.set); });
  if (l < 0) dsim::probe(1);
  require(l != 0, std::string("no order of the calls explains the values returned by the ") + (gauge ? "gauge" : "counter") + show(hist, names));
  }
}
const char* const probes[] = {"overlapping_calls", "search_budget_exceeded", "timestamp_read_back", nullptr};
Reg r_({"value", gen, run, probes, "Counter, Gauge, Family, Registry (instrumented C++)", "clocks, scheduler, weak compare-and-swap outcome"});
}  // namespace
