// C07: registries.
#include "h.h"
#include <prometheus/counter.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/histogram.h>
#include <prometheus/info.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>
using namespace h;
using namespace prometheus;

namespace {
enum K { REG, ADDM, REMOVE, FOREIGN, COLLECT, BADREG, REGX, REMX };
const char* const names[] = {"Register", "Family::Add", "Remove", "Remove(foreign)", "Collect", "Register(invalid)", "Register(bystander)", "Remove(bystander)"};
const char* const plain_name[] = {"alpha", "beta", "alpha_total", "a", "gamma"};
const char* const type_name[] = {"counter", "gauge", "histogram", "info", "summary"};

Labels labels_of(i64 c, int type) {
  switch (c) {
    case 0: return {};
    case 1: return {{"k", "v"}};
    case 2: return {{"k", "w"}};
    case 3: return {{"k", "v"}, {"x", ""}};
    // the name one type reserves is any other name to the others
    default: return {{"Z9_", "v"}, {"A0", ""}, {"_z", "a"}, {type == 2 ? "quantile" : "le", "1"}};
  }
}
struct Fam { int type; void* p; };

Fam do_reg(Registry& r, int type, const std::string& n, const std::string& help, const Labels& l) {
  switch (type) {
    case 0: return {0, &BuildCounter().Name(n).Help(help).Labels(l).Register(r)};
    case 1: return {1, &BuildGauge().Name(n).Help(help).Labels(l).Register(r)};
    case 2: return {2, &BuildHistogram().Name(n).Help(help).Labels(l).Register(r)};
    case 3: return {3, &BuildInfo().Name(n).Help(help).Labels(l).Register(r)};
    default: return {4, &BuildSummary().Name(n).Help(help).Labels(l).Register(r)};
  }
}
bool do_remove(Registry& r, Fam f) {
  switch (f.type) {
    case 0: return r.Remove(*(Family<Counter>*)f.p);
    case 1: return r.Remove(*(Family<Gauge>*)f.p);
    case 2: return r.Remove(*(Family<Histogram>*)f.p);
    case 3: return r.Remove(*(Family<Info>*)f.p);
    default: return r.Remove(*(Family<Summary>*)f.p);
  }
}
void do_add(Fam f, const Labels& l) {
  switch (f.type) {
    case 0: ((Family<Counter>*)f.p)->Add(l); break;
    case 1: ((Family<Gauge>*)f.p)->Add(l); break;
    case 2: ((Family<Histogram>*)f.p)->Add(l, Histogram::BucketBoundaries{1.0}); break;
    case 3: ((Family<Info>*)f.p)->Add(l); break;
    default: ((Family<Summary>*)f.p)->Add(l, Summary::Quantiles{}); break;
  }
}
const std::string& name_of(Fam f) {
  switch (f.type) {
    case 0: return ((Family<Counter>*)f.p)->GetName();
    case 1: return ((Family<Gauge>*)f.p)->GetName();
    case 2: return ((Family<Histogram>*)f.p)->GetName();
    case 3: return ((Family<Info>*)f.p)->GetName();
    default: return ((Family<Summary>*)f.p)->GetName();
  }
}
const Labels& clabels_of(Fam f) {
  switch (f.type) {
    case 0: return ((Family<Counter>*)f.p)->GetConstantLabels();
    case 1: return ((Family<Gauge>*)f.p)->GetConstantLabels();
    case 2: return ((Family<Histogram>*)f.p)->GetConstantLabels();
    case 3: return ((Family<Info>*)f.p)->GetConstantLabels();
    default: return ((Family<Summary>*)f.p)->GetConstantLabels();
  }
}

// some are registered without a help text
i64 help_id(const Plan& p, double x) { return p.get("nohelp") && (i64)x % p.get("nohelp") == 0 ? 0 : (i64)x; }

struct SeenFam { int name, type; std::set<i64> ids; i64 help; };
struct St { int type; i64 labels; const void* p; i64 help; };
struct M { std::map<int, St> m; };

void run(const Plan& p) {
  const bool merge = p.get("merge");
  Registry* reg = new Registry(merge ? Registry::InsertBehavior::Merge : Registry::InsertBehavior::Throw);
  Registry* other = new Registry(Registry::InsertBehavior::Merge);
  const int nt = p.threads();
  M init;
  std::string fam_name[5];
  for (int i = 0; i < 5; i++) {
    u64 v = (u64)p.get("names");
    do fam_name[i] = p.get("names") ? a_name(v += 5 * (u64)i + 1, true) : plain_name[i];
    while (std::count(fam_name, fam_name + i, fam_name[i]) || fam_name[i].compare(0, 6, "extra_") == 0);
  }
  // families of another registry, with names that occur here too
  Fam foreign = do_reg(*other, (int)p.get("ftype"), fam_name[0], "", {});
  std::vector<Fam> bystander;
  std::vector<u64> xinv((size_t)p.get("extra")), xret = xinv;      // when removals of them began and ended
  bystander.reserve(xinv.size());
  for (i64 a = 0; a < p.get("extra"); a++) {   // bystanders: families with one metric
    API;
    std::string n = "extra_" + std::to_string(a);
    Fam f = do_reg(*reg, (int)(p.get("extra_type", 5) < 5 ? p.get("extra_type") : a % 5), n, "", {});
    do_add(f, {{"id", std::to_string(1000 + a)}});
    bystander.push_back(f);
  }
  std::vector<std::map<i64, Fam>> mine(nt + 1);
  std::set<void*> dead;
  std::map<void*, int> in_use;
  std::vector<std::vector<std::vector<SeenFam>>> seen(nt + 1);
  std::map<const void*, i64> help_of;

  auto body = [&](const Op& o, Rec& r) {
    int th = o.th == 99 ? nt : o.th;
    switch (o.k) {
      case REG: {
        std::string n = fam_name[o.a], hp = help_id(p, o.x) ? fmt("h%d", (int)o.x) : "";
        Labels l = labels_of(o.c, (int)o.b);
        Fam f{0, nullptr};
        {
          API;
          try { f = do_reg(*reg, (int)o.b, n, hp, l); } catch (const std::invalid_argument&) { r.failed = true; }
          end(r);
        }
        r.ri = (i64)f.p;
        if (f.p && !dead.count(f.p)) {
          mine[th][o.a] = f;
          // still alive: nobody can have removed it since, harness code is not interrupted
          require(name_of(f) == n && clabels_of(f) == l, "a registration returned a family with another name or other constant labels");
        }
        break;
      }
      case BADREG: {
        // never the name of a family that may exist: that alone would have it refused
        std::string n = "unused_" + a_name((u64)o.c + 1, true), bad = bad_char(o.c, true);
        Labels l;
        if (o.c % 3) l[a_name((u64)o.c + 2, false)] = "x";
        switch (o.a) {
          case 0: n = "1x"; break;
          case 1: n = ""; break;
          case 2: n = o.c & 1 ? "__x" : "__"; break;
          case 3: n = std::to_string(o.c % 10) + n; break;
          case 4: n.insert((size_t)o.c % (n.size() + 1), bad); break;
          case 5: l[o.b == 2 ? "le" : o.b == 4 ? "quantile" : "a b"] = "x"; break;
          case 6: l["__" + n] = "x"; break;
          case 7: l[std::to_string(o.c % 10)] = "x"; break;
          case 8: l[""] = "x"; break;
          default: { std::string q = a_name((u64)o.c + 3, false); q.insert((size_t)(o.c / 20) % (q.size() + 1), bad_char(o.c, false)); l[q] = "x"; }
        }
        API;
        try { do_reg(*reg, (int)o.b, n, "", l); } catch (const std::invalid_argument&) { r.failed = true; }
        if (!r.failed) {
          fail("an invalid family was registered");
        }
        break;
      }
      case ADDM: {
        auto it = mine[th].find(o.a);
        if (it == mine[th].end() || dead.count(it->second.p)) { r.failed = true; break; }
        Fam f = it->second;
        in_use[f.p]++;
        Labels l{{"id", std::to_string((int)o.x)}};
        { API; do_add(f, l); end(r); }
        in_use[f.p]--;
        dsim::hb_release(f.p);
        r.ri = (i64)f.p;
        break;
      }
      case REMOVE: {
        auto it = mine[th].find(o.a);
        if (it == mine[th].end() || dead.count(it->second.p) || in_use[it->second.p]) { r.failed = true; break; }
        Fam f = it->second;
        dead.insert(f.p);
        dsim::hb_acquire(f.p);
        r.ri = (i64)f.p;
        bool b;
        { API; b = do_remove(*reg, f); end(r); }
        if (!b) fail("Remove returned false for a family the registry held");
        mine[th].erase(o.a);
        break;
      }
      case FOREIGN: {
        API;
        if (do_remove(*reg, foreign)) fail("Remove returned true for a family of another registry");
        break;
      }
      case REGX: {      // the name of a bystander that stays
        size_t a = (size_t)o.a;
        if (a % 3 == 0 || a >= bystander.size()) { r.failed = true; break; }
        Labels l = labels_of(o.c, (int)o.b);
        Fam f{0, nullptr};
        {
          API;
          try { f = do_reg(*reg, (int)o.b, "extra_" + std::to_string(a), "other", l); } catch (const std::invalid_argument&) { r.failed = true; }
        }
        bool same = merge && o.b == bystander[a].type && l.empty();
        if (same == r.failed) fail(same ? "registering a family again was refused although the registry merges" : "a family was registered although one of that name exists");
        if (same && f.p != bystander[a].p) fail("registering a family again returned another family");
        break;
      }
      case REMX: {
        size_t a = (size_t)o.a;
        if (a % 3 || a >= bystander.size() || xinv[a]) { r.failed = true; break; }
        xinv[a] = dsim::ev();
        bool b;
        { API; b = do_remove(*reg, bystander[a]); }
        xret[a] = dsim::ev();
        if (!b) fail("Remove returned false for a family the registry held");
        break;
      }
      case COLLECT: {
        std::vector<MetricFamily> v;
        std::vector<bool> removed(bystander.size());
        for (size_t a = 0; a < removed.size(); a++) removed[a] = xret[a];
        { API; v = reg->Collect(); end(r); }
        std::vector<SeenFam> s;
        std::set<i64> ex;
        for (auto& f : v) {
          SeenFam x{-1, -1, {}, atoll(f.help.c_str() + (f.help.empty() ? 0 : 1))};
          require(!f.metric.empty(), "a family without metrics was collected");
          if (f.name.compare(0, 6, "extra_") == 0) {
            require(ex.insert(atoi(f.name.c_str() + 6)).second && f.metric.size() == 1, "a family was collected twice or with the wrong metrics");
            continue;
          }
          for (int i = 0; i < 5; i++) if (f.name == fam_name[i]) x.name = i;
          x.type = f.type == MetricType::Counter ? 0 : f.type == MetricType::Gauge ? 1 : f.type == MetricType::Histogram ? 2 : f.type == MetricType::Info ? 3 : f.type == MetricType::Summary ? 4 : -1;
          require(x.name >= 0 && x.type >= 0, "a family nobody registered was collected: " + f.name);
          for (auto& y : s) require(y.name != x.name, "two families of one name in one collection: " + f.name);
          for (auto& m : f.metric) {
            i64 id = -1;
            for (auto& l : m.label) if (l.name == "id") id = atoll(l.value.c_str());
            require(x.ids.insert(id).second, "a metric was collected twice");
          }
          r.rs += fmt("%s:%s", f.name.c_str(), type_name[x.type]);
          for (i64 id : x.ids) r.rs += fmt("#%d", (int)id);
          r.rs += " ";
          s.push_back(x);
        }
        for (size_t a = 0; a < bystander.size(); a++) {
          require(ex.count((i64)a) || xinv[a], "a family that was registered throughout is missing from a collection");
          require(!ex.count((i64)a) || !removed[a], "a family that was removed before is in a collection");
        }
        r.ri = (i64)seen[th].size();
        seen[th].push_back(s);
        break;
      }
    }
  };
  auto hist = run_plan(p, body);
  Op fin{99, COLLECT, 0, 0, 0, 0, 0};
  { Rec r = begin(fin); body(fin, r); hist.push_back(r); }
  dsim::sim_off();
  if (overlaps(hist)) dsim::probe(0);
  for (auto& r : hist) if (r.k == REG && r.failed) { dsim::probe(2); break; }
  auto ids_fit = [&](const void* q, const std::set<i64>* ids, const Rec& c) {
    size_t got = 0;
    for (auto& r : hist) {
      if (r.k != ADDM || r.failed) continue;
      bool in = ids && ids->count((i64)r.x);
      if ((const void*)r.ri == q) {
        if (in && r.inv > c.ret) return false;
        if (!in && r.ret < c.inv) return false;
        got += in;
      } else if (in) return false;
    }
    return !ids || got == ids->size();
  };
  auto step = [&](const M& m, const Rec& r, std::vector<M>& out) {
    M n = m;
    switch (r.k) {
      case REG: {
        auto it = n.m.find((int)r.a);
        if (it == n.m.end()) {
          if (r.failed) return;
          for (auto& x : n.m) if (x.second.p == (void*)r.ri) return;
          n.m[(int)r.a] = St{(int)r.b, r.c, (void*)r.ri, help_id(p, r.x)};
        } else {
          bool ok = merge && it->second.type == (int)r.b && it->second.labels == r.c;
          if (ok == r.failed) return;
          if (ok && it->second.p != (void*)r.ri) return;
        }
        break;
      }
      case REMOVE: if (!r.failed) { auto it = n.m.find((int)r.a); if (it == n.m.end() || it->second.p != (void*)r.ri) return; n.m.erase(it); } break;
      case COLLECT: {
        auto& s = seen[r.th == 99 ? nt : r.th][r.ri];
        std::set<int> have;
        for (auto& x : s) {
          auto it = n.m.find(x.name);
          if (it == n.m.end() || it->second.type != x.type || it->second.help != x.help || !ids_fit(it->second.p, &x.ids, r)) return;
          have.insert(x.name);
        }
        for (auto& y : n.m) if (!have.count(y.first) && !ids_fit(y.second.p, nullptr, r)) return;
        break;
      }
      default: break;
    }
    out.push_back(n);
  };
  auto key = [](const M& m) { std::string s; for (auto& x : m.m) s += fmt("%d:%d:%d:%p:%s;", x.first, x.second.type, (int)x.second.labels, x.second.p, std::to_string(x.second.help).c_str()); return s; };
  int l = linearizable(hist, init, step, key);
  if (l < 0) dsim::probe(1);
  if (l == 0) {
    std::map<i64, int> inst;
    for (auto& r : hist) if (r.k == REG && r.ri) inst.insert({r.ri, (int)inst.size()});
    for (auto& r : hist) {
      if (r.k == REG) r.rs = fmt("%s %s labels %d: %s", type_name[r.b], fam_name[r.a].c_str(), (int)r.c, r.failed ? "refused" : fmt("family #%d", inst[r.ri]).c_str());
      if ((r.k == REMOVE || r.k == ADDM) && !r.failed) r.rs = fmt("family #%d", inst[r.ri]);
    }
    fail(std::string("no order of the calls explains what the registry (") + (merge ? "Merge" : "Throw") + ") returned" + show(hist, names));
  }
}

void gen(Plan& p, Rng& r) {
  p.cfg["merge"] = r.pct(60);
  p.cfg["names"] = r.pct(30) ? 0 : 1 + (i64)r.n(1000000);
  p.cfg["ftype"] = r.n(5);
  p.cfg["nohelp"] = r.pct(70) ? 0 : 1 + (i64)r.n(3);
  p.cfg["extra"] = r.of<i64>({0, 0, 0, 1, 3, 7, 7, 17, 40});
  p.cfg["extra_type"] = r.n(11);
  int th = 2 + (int)r.n(3), total = 4 + (int)r.n(18);
  i64 nn = 1 + (i64)r.n(3), ntp = 1 + (i64)r.n(3), tb = (i64)r.n(5), nl = 1 + (i64)r.n(5);
  u32 rd = (u32)r.of<int>({15, 30, 45}), bad = (u32)r.of<int>({0, 8, 20});
  for (int i = 0; i < total; i++) {
    int t = i < th ? i : (int)r.n(th);
    i64 a = (i64)r.n(nn), b = (tb + (i64)r.n(ntp)) % 5;
    if (r.pct(rd)) p.add(t, COLLECT);
    else if (r.pct(bad)) p.add(t, BADREG, r.n(10), r.n(5), r.n(100000));
    else switch (r.n(7)) {
      case 0: case 1: case 2: p.add(t, REG, a, b, r.n(nl), (double)i); break;
      case 3: case 4: p.add(t, ADDM, a, 0, 0, (double)(100 + i)); break;
      case 5: p.add(t, REMOVE, a); break;
      default: if (p.cfg["extra"] && r.pct(50)) { i64 x = (i64)r.n((u64)p.cfg["extra"]); p.add(t, r.pct(40) ? REMX : REGX, x, r.pct(60) && p.cfg["extra_type"] < 5 ? p.cfg["extra_type"] : (i64)r.n(5), r.pct(60) ? 0 : (i64)r.n(5)); }
        else if (r.pct(30)) p.add(t, FOREIGN); else { p.add(t, REG, a, b, r.n(nl), (double)i); p.add(t, ADDM, a, 0, 0, (double)(100 + i)); }
    }
  }
  if (r.pct(20)) set_fault(p, dsim::F_STALL, 20000, 3);
}
const char* const probes[] = {"overlapping_calls", "search_budget_exceeded", "refused_registration", nullptr};
Reg r_({"registry", gen, run, probes, "Registry, Builder, Family, name checks, all five metric types (instrumented C++)", "scheduler, mutex"});
}  // namespace
