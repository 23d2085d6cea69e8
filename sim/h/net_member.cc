// C13: which collectables a scrape shows while they come and go.
#include "pull.h"
#include <prometheus/collectable.h>
using namespace pull;

namespace {
enum K { GET, REG, REM, DROP, NEW, BUMP, PAUSE, SLOW };
struct Call { u64 enter, exit; };
struct Span { u64 inv, ret; u64 t0, t1; int uri; };
struct Life {                // one object behind a shared_ptr
  std::vector<Span> reg, rem;
  u64 drop_inv = 0, dead = 0;    // the harness's reference given up; destructor run
  std::weak_ptr<Collectable> weak;
  // the removal that ends a registration: the first one on that URI after it
  const Span* ended(const Span& a) const { for (auto& x : rem) if (x.uri == a.uri && x.inv > a.inv) return &x; return nullptr; }
  std::vector<Call> calls;
  int running = 0;
};
// what the library is given: a collectable that watches how it is used
struct Probe : Collectable {
  Life* life; std::string name; u64 slow; volatile i64* version; u64 magic = 0x600dbeefcafe1234ull;
  Probe(Life* l, std::string n, u64 s, volatile i64* v) : life(l), name(std::move(n)), slow(s), version(v) {}
  ~Probe() override {
    Outside o;
    if (magic != 0x600dbeefcafe1234ull) fail("a collectable was destroyed twice");
    if (life->running) fail("collectable " + name + " was destroyed while a scrape was collecting it");
    life->dead = dsim::ev();
    magic = 0;
  }
  std::vector<MetricFamily> Collect() const override {
    Outside o;
    if (magic != 0x600dbeefcafe1234ull) fail("a destroyed collectable was collected");
    life->running++;
    size_t k = life->calls.size();
    life->calls.push_back({dsim::ev(), 0});
    MetricFamily f;
    f.name = name + "_c" + std::to_string(k); f.help = "probe"; f.type = MetricType::Gauge;
    f.metric.resize(1);
    f.metric[0].gauge.value = (double)*version;
    if (slow) dsim::sleep_ns(slow);
    if (magic != 0x600dbeefcafe1234ull) fail("collectable " + name + " was destroyed while a scrape was collecting it");
    life->calls[k].exit = dsim::ev();
    life->running--;
    return std::vector<MetricFamily>(1, f);
  }
};
struct Slot {                // one name; a sequence of objects
  std::string name;
  std::vector<std::unique_ptr<Life>> lives;
  std::shared_ptr<Probe> cur;
  volatile i64 version = 1;
  std::vector<std::pair<u64, u64>> bumps;   // inv, ret of version k+2
};
struct Got { http::Resp r; Text t; int uri; bool ok; };

void run(const Plan& p) {
  const UriSet& set = uri_sets[p.get("uris")];
  auto& uris = set.u;
  Exposer* ex = start(p);
  const int nt = p.threads(), nslot = (int)p.get("slots");
  std::vector<Slot> sl(nslot);
  std::vector<Span> first(NURI, Span{~0ull, ~0ull, 0, 0, 0});   // the call that created the URI
  std::vector<u64> first_inv(NURI, ~0ull), first_ret(NURI, ~0ull);
  for (int i = 0; i < nslot; i++) { sl[i].name = "p" + std::to_string(i); }
  auto made = [&](int i) {
    Slot& s = sl[i];
    s.lives.emplace_back(new Life());
    Life* l = s.lives.back().get();
    u64 slow = (u64)p.get(("slow" + std::to_string(i)).c_str());
    std::string id = s.lives.size() == 1 ? s.name : s.name + "x" + std::to_string(s.lives.size());
    API;
    s.cur = std::make_shared<Probe>(l, id, slow, &s.version);
    l->weak = s.cur;
  };
  for (int i = 0; i < nslot; i++) made(i);
  const i64 bound = 10000000000ll;
  auto timed = [&](Span& sp, const char* what) {
    if ((i64)(sp.t1 - sp.t0) > bound) fail(fmt("%s took %.1f s of simulated time while clients were slow", what, (double)(sp.t1 - sp.t0) / 1e9));
  };
  std::vector<std::vector<Got>> got(nt + 1);
  auto judge = [&](http::Resp&& resp, int u, const GetOpt& o, int th) {
    Got g{std::move(resp), Text(), u, false};
    // was it for another URI's handler?
    const bool other = set.nested && g.r.inv <= first_ret[u];
    if (g.r.head && g.r.status == 404) {
      if (g.r.inv > first_ret[u]) fail(std::string("no scrape target at ") + uris[u] + " although a collectable had been registered there:" + show(g.r));
      dsim::probe(1);
    } else if (!g.r.complete()) {
      if (!g.r.bad.empty()) fail("malformed response: " + g.r.bad);
      if (!excused(g.r)) fail("a scrape was not answered completely although nothing failed:" + show(g.r));
    } else {
      if (g.r.ret < first_inv[u] && !other) fail(std::string("metrics at ") + uris[u] + " before anything was registered there:" + show(g.r));
      std::string text, e = examine(g.r, o, text);
      if (e.empty()) e = parse(text, g.t);
      if (!e.empty()) fail(e + ":" + show(g.r));
      g.ok = !other;
      if (other) dsim::probe(7);
    }
    got[th].push_back(std::move(g));
  };
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        switch (o.k) {
          case GET: { GetOpt g = options(o); judge(get(uris[o.a % NURI], g), (int)(o.a % NURI), g, th); break; }
          case SLOW: {
            // asks, reads a little, stops reading and leaves in the end
            int fd = http::dial(PORT, 300000000000ull);
            if (fd < 0) break;
            GetOpt g;
            http::send_all(fd, request(uris[o.a % NURI], g));
            http::Resp r;
            http::receive(fd, r, 64, 0, (size_t)o.b, false);
            dsim::note_fault(dsim::F_APP);
            dsim::sleep_ns((u64)o.c);
            close(fd);
            break;
          }
          // ---- one controlling thread per slot
          case REG: case REM: {
            Slot& s = sl[o.a];
            int u = (int)(o.b % NURI);
            Life& l = *s.lives.back();
            if (!s.cur && o.k == REG && !o.c) break;
            // (also more than once, or after the object has been released)
            Span sp{dsim::ev(), ~0ull, dsim::now(), ~0ull, u};
            if (sp.inv < first_inv[u]) first_inv[u] = sp.inv;
            auto& v = o.k == REG ? l.reg : l.rem;
            size_t at = v.size();
            v.push_back(sp);
            if (o.k == REG) { API; ex->RegisterCollectable(l.weak, uris[u]); }
            else { API; ex->RemoveCollectable(l.weak, uris[u]); }
            sp.ret = dsim::ev(); sp.t1 = dsim::now();
            v[at] = sp;
            if (sp.ret < first_ret[u]) first_ret[u] = sp.ret;
            timed(sp, o.k == REG ? "RegisterCollectable" : "RemoveCollectable");
            break;
          }
          case DROP: {
            Slot& s = sl[o.a];
            if (!s.cur) break;
            s.lives.back()->drop_inv = dsim::ev();
            { API; s.cur.reset(); }
            dsim::probe(2);
            break;
          }
          case NEW: {
            // a new object under the old name: only once the old one is gone or unregistered
            Slot& s = sl[o.a];
            if (s.cur) break;
            if (!s.lives.back()->dead) { dsim::probe(3); break; }
            made((int)o.a);
            break;
          }
          case BUMP: {
            Slot& s = sl[o.a];
            u64 a = dsim::ev();
            s.version = s.version + 1;
            s.bumps.push_back({a, dsim::ev()});
            break;
          }
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
        }
      }
    });
  t.join();
  dsim::clear_faults();
  dsim::sleep_ns(100000000000ull);
  GetOpt plain;
  for (int u = 0; u < NURI; u++) {
    if (first_ret[u] == ~0ull) continue;
    judge(get(uris[u], plain), u, plain, nt);
    if (!got[nt].back().ok && first_ret[u] != ~0ull) fail("a scrape after all faults ceased was not answered:" + show(got[nt].back().r));
  }
  { API; delete ex; }
  u64 end = dsim::ev();
  for (auto& v : got) for (auto& g : v) if (g.ok)
    for (int i = 0; i < nslot; i++) {
      Slot& s = sl[i];
      const http::Resp& r = g.r;
      i64 lo = 1, hi = 1;
      for (auto& b : s.bumps) { if (b.second < r.inv) lo++; if (b.first < r.ret) hi++; }
      for (size_t li = 0; li < s.lives.size(); li++) {
        Life& l = *s.lives[li];
        const std::string id = (li ? s.name + "x" + std::to_string(li + 1) : s.name) + "_c";
        int must = 0, may = 0, shown = 0;
        std::string h;
        for (auto& a : l.reg) if (a.uri == g.uri) {
          const Span* m = l.ended(a);
          h += fmt(" registered [%llu,%llu]", (unsigned long long)a.inv, (unsigned long long)a.ret);
          if (m) h += fmt(" removed [%llu,%llu]", (unsigned long long)m->inv, (unsigned long long)m->ret);
          if (l.drop_inv) h += fmt(" released %llu destroyed %llu", (unsigned long long)l.drop_inv, (unsigned long long)l.dead);
          bool gone_before = (m && m->ret < r.inv) || (l.dead && l.dead < r.inv);
          if (a.inv < r.ret && !gone_before) may++;
          if (a.ret < r.inv && !(m && m->inv < r.ret) && !(l.drop_inv && l.drop_inv < r.ret)) must++;
        }
        h = " (" + id + h + fmt(", scrape of %s [%llu,%llu])", uris[g.uri], (unsigned long long)r.inv, (unsigned long long)r.ret);
        for (auto& f : g.t.fams) if (!f.name.compare(0, id.size(), id)) {
          shown++;
          size_t k = (size_t)atoll(f.name.c_str() + id.size());
          if (k >= l.calls.size() || l.calls[k].enter < r.inv || l.calls[k].enter > r.ret) fail("a scrape shows what was collected for another one: " + f.name + h);
          double v;
          if (f.s.size() != 1 || !expo::number(f.s[0].raw, v)) fail("a collectable is shown with other metrics than its own" + h);
          if (!(v >= (double)lo && v <= (double)hi)) fail(fmt("%s has value %g in a response, but was in %lld..%lld meanwhile", s.name.c_str(), v, (long long)lo, (long long)hi) + h);
        }
        if (shown < must) fail("a scrape lacks a live registered collectable" + h);
        if (shown > may) fail(may ? "a scrape shows a collectable more often than it is registered" + h : "a scrape shows a collectable that is not registered there or gone" + h);
        if (must) dsim::probe(4);
        if (must > 1) dsim::probe(6);
        if (!may) dsim::probe(5);
      }
    }
  for (auto& v : got) for (auto& g : v) if (g.ok)
    for (auto& f : g.t.fams) {
      bool known = own_family(f.name);
      for (auto& s : sl) if (!f.name.compare(0, s.name.size(), s.name)) known = true;
      if (!known) fail("a scrape shows the unknown family " + f.name);
    }
  // calls after removal
  for (auto& s : sl) for (auto& lp : s.lives) for (auto& c : lp->calls) {
    Life& l = *lp;
    bool may = false;
    for (auto& a : l.reg) {
      const Span* m = l.ended(a);
      if (a.inv < c.enter && !(m && m->ret < c.enter)) may = true;
    }
    if (!may) fail(fmt("%s was collected at %llu, when it was registered nowhere", s.name.c_str(), (unsigned long long)c.enter));
    if (c.enter > end) fail(s.name + " was collected after the exposer was destroyed");
    if (!c.exit) fail(s.name + " is still being collected after the exposer was destroyed");
  }
  for (auto& s : sl) { API; s.cur.reset(); for (auto& l : s.lives) l->weak.reset(); }
  for (auto& s : sl) for (auto& l : s.lives) if (!l->dead) fail(s.name + " was kept alive although nobody refers to it");
  check_gone("after the exposer was destroyed");
  check_leaks("the exposer and all collectables were destroyed");
}

void gen(Plan& p, Rng& r) {
  p.cfg["workers"] = r.in(1, 4);
  int ns = 1 + (int)r.n(5), ctl = 1 + (int)r.n(3), cl = 1 + (int)r.n(3);
  p.cfg["slots"] = ns;
  p.cfg["uris"] = r.pct(60) ? 0 : (i64)r.n(NSET);
  for (int i = 0; i < ns; i++) p.cfg["slow" + std::to_string(i)] = r.of<i64>({0, 0, 0, 100000, 5000000, 50000000});
  bool one_uri = r.pct(50);
  int u0 = (int)r.n(NURI);
  auto uri = [&]() { return one_uri || r.pct(50) ? u0 : (int)r.n(NURI); };
  // slot i belongs to controller i % ctl
  for (int c = 0; c < ctl; c++) {
    std::vector<int> mine;
    for (int i = 0; i < ns; i++) if (i % ctl == c) mine.push_back(i);
    if (mine.empty()) continue;
    int n = 3 + (int)r.n(10);
    if (r.pct(60)) p.add(c, REG, mine[0], u0);
    for (int k = 0; k < n; k++) {
      int i = mine[r.n(mine.size())];
      switch (r.n(12)) {
        case 0: case 1: case 2: case 3: p.add(c, REG, i, uri(), r.pct(5)); break;
        case 4: case 5: case 6: p.add(c, REM, i, uri()); break;
        case 7: p.add(c, DROP, i); break;
        case 8: p.add(c, NEW, i); p.add(c, REG, i, uri()); break;
        case 9: p.add(c, BUMP, i); break;
        default: p.add(c, PAUSE, (i64)r.n(r.pct(50) ? 500000 : 20000000)); break;
      }
    }
  }
  for (int c = 0; c < cl; c++) {
    int n = 1 + (int)r.n(4);
    for (int k = 0; k < n; k++) {
      if (r.pct(40)) p.add(ctl + c, PAUSE, (i64)r.n(r.pct(50) ? 500000 : 20000000));
      p.add(ctl + c, GET, uri(), (i64)r.n(2));
    }
  }
  p.cfg["net_window"] = 65536;
  if (r.pct(35)) {
    int k = 1 + (int)r.n(3);
    p.cfg["net_window"] = r.of<i64>({100, 400, 1000});
    for (int i = 0; i < k; i++) p.add(ctl + cl + i, SLOW, uri(), r.of<i64>({0, 1, 70, 200}), r.in(20, 100) * 1000000000ll);
  }
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_SEND, 300000, 40);
  if (r.pct(60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(10)) set_fault(p, dsim::F_NET_STALL, 20000, 3);
  if (r.pct(10)) set_fault(p, dsim::F_NET_RST, 20000, 2);
  if (r.pct(30)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 100000000; }
}
const char* const probes[] = {"-", "scraped_before_uri_existed", "collectable_released", "released_collectable_still_in_use", "presence_required", "absence_required", "presence_required_more_than_once", "answered_by_the_handler_of_a_shorter_uri", nullptr};
Reg r_({"member", gen, run, probes, "Exposer, Endpoint, MetricsHandler, metrics collector, serializer (instrumented C++), civetweb 1.16 (unmodified shared library)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, HTTP clients, collectables"});
}  // namespace
