// C26: collectables and callbacks that throw, and allocations that fail, while
// a request is served or a push is made.
#include "peer.h"
#include <new>
#include <prometheus/collectable.h>
#include <prometheus/gateway.h>
using namespace pull;

namespace {
struct Strange { char big[200]; };
struct Trouble {
  bool off = false;
  std::vector<u64> at;             // event numbers of what was thrown
  int last = -1;
  void raise(int kind) {
    at.push_back(dsim::ev());
    dsim::note_fault(dsim::F_APP);
    dsim::probe(1);
    last = kind % 5;
    switch (kind % 5) {
      case 0: throw std::runtime_error("a collectable that cannot be collected just now");
      case 1: throw std::bad_alloc();
      case 2: throw 42;
      case 3: throw std::string("a string");
      default: throw Strange();
    }
  }
  bool during(u64 a, u64 b) const { for (u64 x : at) if (x > a && x < b) return true; return false; }
};
struct Src : Collectable {
  std::string name; u64 mask, slow; int kind, size;
  Trouble* tr;
  mutable int calls = 0;           // every collection shows another family
  Src(std::string n, u64 m, u64 s, int k, int z, Trouble* t) : name(std::move(n)), mask(m), slow(s), kind(k), size(z), tr(t) {}
  std::vector<MetricFamily> Collect() const override {
    Outside o;
    int k = calls++;
    if (slow) dsim::sleep_ns(slow); else dsim::yield_point();
    if (!tr->off && mask >> (k % 24) & 1) tr->raise(kind + k);
    std::vector<MetricFamily> v(1);
    dsim::open_alloc_faults();
    v[0].name = name + "_c" + std::to_string(k); v[0].help = "h"; v[0].type = MetricType::Gauge;
    v[0].metric.resize((size_t)size);
    for (int i = 0; i < size; i++) { v[0].metric[(size_t)i].label = {{"i", std::to_string(i)}}; v[0].metric[(size_t)i].gauge.value = 0.1 * i; }
    return v;
  }
};
const char* const cred[] = {"Z29vZDpwdw==", "YmFkOnB3", "Ym9vbTpwdw==", nullptr};   // good:pw bad:pw boom:pw
u64 alloc_faults() { return dsim::fault_count(dsim::F_ALLOC); }
struct Calm { Calm() { dsim::no_faults(true); } ~Calm() { dsim::no_faults(false); } };

enum K { GET, PAUSE, CALL };
void run(const Plan& p) {
  const int nt = p.threads(), per = (int)p.get("per");
  const i64 prot = p.get("prot");
  Exposer* ex;
  Trouble coll[NURI], auth;
  std::vector<std::shared_ptr<Src>> src[NURI];
  dsim::gate_alloc_faults();
  { Calm c; ex = start(p); }
  auto decide = [&auth](const std::string& u, const std::string& w) {
    Outside o;
    if (u == "boom" && !auth.off) auth.raise((int)w.size());
    return u == "good" && w == "pw";
  };
  {
    Calm c; API;
    for (int u = 0; u < NURI; u++) {
      for (int i = 0; i < per; i++) {
        std::string n = fmt("s%d_%d", u, i);
        src[u].push_back(std::make_shared<Src>(n, (u64)p.get(("mask" + n).c_str()), (u64)p.get(("slow" + n).c_str()), i + u, (int)p.get(("size" + n).c_str(), 1), &coll[u]));
        ex->RegisterCollectable(src[u][(size_t)i], uris[u]);
      }
      if (prot >> u & 1) ex->RegisterAuth(decide, "realm", uris[u]);
    }
  }
  u64 served[NURI] = {}, bytes[NURI] = {}, n500 = 0, sends[NURI] = {};
  auto ask = [&](int u, i64 bits, int who) {
    GetOpt g;
    g.gzip = bits & 1;
    if (cred[who]) g.extra = std::string("Authorization: Basic ") + cred[who] + "\r\n";
    const u64 a0 = alloc_faults();
    http::Resp r = get(uris[u], g);
    const bool starved = alloc_faults() != a0;
    std::string what = fmt(" (%s, user %d)", uris[u], who) + show(r);
    if (!r.bad.empty()) fail("malformed response: " + r.bad + what);
    if (!r.head || r.error || (r.has_len ? r.body.size() != r.len : !r.eof)) fail("a request was not answered completely" + what);
    sends[u]++;
    const bool pr = prot >> u & 1;
    if (r.status == 200) {
      if (pr && who != 0) fail("metrics were given out without the callback's consent" + what);
      Text t;
      std::string text, e = examine(r, g, text);
      if (e.empty()) e = parse(text, t);
      if (!e.empty()) fail(e + what);
      for (auto& s : src[u]) {
        int got = 0;
        for (auto& f : t.fams) if (f.name.compare(0, s->name.size() + 2, s->name + "_c") == 0) { got++; if (f.s.size() != (size_t)s->size) fail("a metric is missing" + what); }
        if (got != 1) fail(fmt("%s appears %d times in a complete answer", s->name.c_str(), got) + what);
      }
      if (g.gzip && r.body.size() == text.size() && http::header(r.hs, "content-encoding").empty()) dsim::probe(4);
      served[u]++; bytes[u] += r.body.size();
      dsim::probe(0);
    } else if (r.status == 500) {
      if (!starved && !coll[u].during(r.inv, r.ret)) fail("status 500 although nothing failed" + what);
      if (pr && who != 0) fail("a request that was not authorised was collected for" + what);
      if (r.body.find("_c") != std::string::npos && r.body.find("gauge") != std::string::npos) fail("metrics in a failed answer" + what);
      n500++;
      dsim::probe(2);
    } else if (r.status == 401) {
      if (!pr) fail("401 from a URI that is not protected" + what);
      if (who == 0) { if (!starved) fail("401 for the right user" + what); n500++; }
      if (http::header(r.hs, "www-authenticate").find("realm") == std::string::npos) fail("401 without the realm" + what);
      dsim::probe(3);
    } else fail("unexpected status" + what);
  };
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        switch (o.k) {
          case GET: ask((int)(o.a % NURI), o.b, (int)(o.c & 3)); break;
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
          case CALL: {
            Calm c;
            u64 t0 = dsim::now();
            int u = (int)(o.a % NURI);
            {
              API;
              auto other = std::make_shared<Registry>();
              if (o.b & 1) ex->RegisterCollectable(other, uris[u]);
              if (o.b & 1) ex->RemoveCollectable(other, uris[u]);
              if (o.b & 2 && prot >> u & 1) ex->RegisterAuth(decide, "realm", uris[u]);
            }
            if (dsim::now() - t0 > 20000000000ull + (u64)p.get("stall_max") * 5) fail("a call on the exposer had to wait");
            break;
          }
        }
      }
    });
  t.join();
  const u64 faults = alloc_faults();
  u64 thrown = auth.at.size();
  for (int u = 0; u < NURI; u++) thrown += coll[u].at.size();
  if (n500 > faults + thrown) fail(fmt("%llu requests failed of %llu thrown exceptions and %llu failed allocations", (unsigned long long)n500, (unsigned long long)thrown, (unsigned long long)faults));
  // nothing fails any more
  dsim::clear_faults();
  dsim::set_fault(dsim::F_ALLOC, 0, 0); dsim::set_fault(dsim::F_ZLIB, 0, 0);
  auth.off = true;
  for (auto& c : coll) c.off = true;
  dsim::sleep_ns(10000000000ull);
  for (int u = 0; u < NURI; u++) {
    const u64 n = served[u], by = bytes[u];
    GetOpt g;
    g.extra = std::string("Authorization: Basic ") + cred[0] + "\r\n";
    http::Resp r = get(uris[u], g);
    Text t2;
    std::string text, e = r.complete() ? examine(r, g, text) : "a request after all failures was not answered";
    if (e.empty()) e = parse(text, t2);
    if (!e.empty()) fail(e + show(r));
    for (auto& s : src[u]) if (!std::count_if(t2.fams.begin(), t2.fams.end(), [&](const expo::Fam& f) { return f.name.compare(0, s->name.size() + 2, s->name + "_c") == 0; })) fail("after failed requests " + s->name + " is missing" + show(r));
    double x, y, z;
    if (!t2.value(own_families[1], own_families[1], x) || !t2.value(own_families[0], own_families[0], y) || !t2.value(own_families[2], std::string(own_families[2]) + "_count", z)) fail("the exposer's own metrics are missing" + show(r));
    if (x != (double)n || y != (double)by) fail(fmt("the exposer counts %g scrapes and %g bytes at %s, but %llu requests were answered with %llu bytes", x, y, uris[u], (unsigned long long)n, (unsigned long long)by));
    if (z != x) fail(fmt("%g latencies for %g scrapes", z, x));
    { Calm c; API; auto other = std::make_shared<Registry>(); ex->RegisterCollectable(other, uris[u]); ex->RemoveCollectable(other, uris[u]); }
  }
  { Calm c; API; delete ex; for (auto& v : src) std::vector<std::shared_ptr<Src>>().swap(v); }
  check_gone("after the exposer was destroyed");
  check_leaks("the exposer was destroyed");
}
void gen(Plan& p, Rng& r) {
  p.cfg["workers"] = r.in(1, 4);
  int per = (int)r.in(1, 3);
  p.cfg["per"] = per;
  p.cfg["prot"] = (i64)r.n(8);
  for (int u = 0; u < NURI; u++)
    for (int i = 0; i < per; i++) {
      std::string n = fmt("s%d_%d", u, i);
      i64 m = 0;
      if (r.pct(40)) for (int k = 0; k < 24; k++) if (r.pct(35)) m |= 1 << k;
      p.cfg["mask" + n] = m;
      p.cfg["slow" + n] = r.of<i64>({0, 0, 1000000, 50000000});
      p.cfg["size" + n] = r.of<i64>({1, 1, 3, 20, 400});
    }
  int nu = 1 + (int)r.n(NURI), cl = 1 + (int)r.n(4);
  for (int c = 0; c < cl; c++) {
    int n = 1 + (int)r.n(6);
    for (int k = 0; k < n; k++) {
      if (r.pct(30)) p.add(c, PAUSE, (i64)r.n(r.of<u64>({100000, 3000000, 100000000})));
      if (r.pct(12)) p.add(c, CALL, r.n(nu), r.n(4));
      p.add(c, GET, r.n(nu), r.n(2), r.pct(60) ? 0 : (i64)r.n(4));
    }
  }
  if (r.pct(65)) set_fault(p, dsim::F_ALLOC, (u32)r.of<int>({3000, 20000, 100000}), (u32)r.of<int>({1, 2, 6}));
  if (r.pct(15)) set_fault(p, dsim::F_ZLIB, 300000, 3);
  if (r.pct(40)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(20)) set_fault(p, dsim::F_NET_SHORT_SEND, 200000, 40);
  if (r.pct(25)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 100000000; }
}
const char* const probes[] = {"answered_200", "thrown", "answered_500", "answered_401", "sent_uncompressed", nullptr};
Reg r_({"fails", gen, run, probes, "Exposer, Endpoint, MetricsHandler, BasicAuthHandler, metrics collector, serializer (instrumented C++), civetweb 1.16 (unmodified shared library)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, zlib failures, HTTP clients, collectables and callbacks that throw"});

// ---- the gateway
enum K2 { PUSH, PUSHADD, APUSH, APUSHADD, REG, PAUSE2 };
void run2(const Plan& p) {
  const int nt = p.threads(), per = (int)p.get("per");
  Peer peer(9091);
  volatile int reqs = 0;
  std::set<std::string> bodies;
  peer.on = [&](const std::string&, const std::string& body) {
    reqs = reqs + 1;
    // what was collected is delivered at most once
    size_t a = body.find("# TYPE ");
    std::string n = a == std::string::npos ? "" : body.substr(a + 7, body.find(' ', a + 7) - a - 7);
    if (n.empty() || !bodies.insert(n).second) fail("a body was sent twice, or without metrics: " + expo::excerpt(body));
    std::vector<expo::Fam> fs;
    std::string e;
    if (!expo::parse(body, fs, e)) fail("a request carries an incomplete text: " + e);
    if (fs.size() != 1) fail("a request carries more than one collectable: " + expo::excerpt(body));
    for (auto& f : fs) if (f.s.size() < 1 || f.s.size() != (size_t)p.get(("size" + f.name.substr(0, f.name.find("_c"))).c_str(), 1)) fail("a request lacks metrics: " + expo::excerpt(body));
  };
  Gateway* gw;
  Trouble tr;
  std::vector<std::shared_ptr<Src>> src;
  {
    Calm c; API;
    gw = new Gateway("127.0.0.1", "9091", "job");
    for (int i = 0; i < per; i++) {
      std::string n = fmt("s0_%d", i);
      src.push_back(std::make_shared<Src>(n, (u64)p.get(("mask" + n).c_str()), (u64)p.get(("slow" + n).c_str()), i, (int)p.get(("size" + n).c_str(), 1), &tr));
      gw->RegisterCollectable(src[(size_t)i]);
    }
  }
  u64 failed = 0;
  auto push = [&](int k, bool calm) {
    const u64 a0 = alloc_faults(), v0 = dsim::ev();
    int rc = 0, how = 0;
    {
      API;
      try {
        switch (k) {
          case PUSH: rc = gw->Push(); break;
          case PUSHADD: rc = gw->PushAdd(); break;
          case APUSH: { auto f = gw->AsyncPush(); rc = f.get(); break; }
          default: { auto f = gw->AsyncPushAdd(); rc = f.get(); }
        }
      } catch (const std::bad_alloc&) { how = 2; }
      catch (const std::runtime_error&) { how = 1; }
      catch (int x) { how = x == 42 ? 3 : 9; }
      catch (const std::string& x) { how = x == "a string" ? 4 : 9; }
      catch (const Strange&) { how = 5; }
      catch (...) { how = 9; }
    }
    const bool starved = alloc_faults() != a0;
    bool threw = false;
    for (u64 x : tr.at) if (x > v0) threw = true;
    if (how == 9) fail("a push ended with an exception nobody threw");
    if (how && how != 2 && !threw) fail("a push ended with an exception that was not thrown during it");
    if (how == 2 && !threw && !starved) fail("a push ended with bad_alloc although no allocation failed");
    if (how) { failed++; dsim::probe(2); }
    else if (rc != 200) { if (!starved) fail(fmt("a push returned %d although every request was accepted", rc)); failed++; }
    else dsim::probe(0);
    if (calm && (how || rc != 200)) fail(fmt("a push after all failures returned %d", rc));
  };
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        if (o.k == PAUSE2) dsim::sleep_ns((u64)o.a);
        else if (o.k == REG) { Calm c; API; auto other = std::make_shared<Src>("gone", 0, 0, 0, 1, &tr); gw->RegisterCollectable(other); }
        else push(o.k, false);
      }
    });
  t.join();
  if (failed > tr.at.size() + alloc_faults()) fail("more pushes failed than failures happened");
  dsim::clear_faults();
  dsim::set_fault(dsim::F_ALLOC, 0, 0);
  tr.off = true;
  for (int k : {PUSH, APUSH}) {
    int before = reqs;
    push(k, true);
    if (reqs - before != per) fail(fmt("a push after all failures sent %d requests for %d collectables", reqs - before, per));
  }
  { Calm c; API; delete gw; std::vector<std::shared_ptr<Src>>().swap(src); }
  peer.end();
  check_leaks("the gateway was destroyed");
}
void gen2(Plan& p, Rng& r) {
  int per = (int)r.in(1, 4);
  p.cfg["per"] = per;
  for (int i = 0; i < per; i++) {
    std::string n = fmt("s0_%d", i);
    i64 m = 0;
    if (r.pct(50)) for (int k = 0; k < 24; k++) if (r.pct(30)) m |= 1 << k;
    p.cfg["mask" + n] = m;
    p.cfg["slow" + n] = r.of<i64>({0, 0, 1000000, 50000000});
    p.cfg["size" + n] = r.of<i64>({1, 3, 20, 400});
  }
  int cl = 1 + (int)r.n(3);
  for (int c = 0; c < cl; c++) {
    int n = 1 + (int)r.n(5);
    for (int k = 0; k < n; k++) {
      if (r.pct(25)) p.add(c, PAUSE2, (i64)r.n(r.of<u64>({100000, 3000000, 100000000})));
      p.add(c, r.pct(10) ? REG : (int)r.n(4));
    }
  }
  if (r.pct(60)) set_fault(p, dsim::F_ALLOC, (u32)r.of<int>({3000, 20000, 100000}), (u32)r.of<int>({1, 2, 6}));
  if (r.pct(40)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(25)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 100000000; }
}
const char* const probes2[] = {"succeeded", "thrown", "ended_with_exception", nullptr};
Reg r2_({"fails_push", gen2, run2, probes2, "Gateway, CurlWrapper, std::async, serializer (instrumented C++), libcurl (unmodified shared library)",
         "TCP, clocks, scheduler, threads, mutexes, allocator, the Pushgateway, collectables that throw"});
}  // namespace
