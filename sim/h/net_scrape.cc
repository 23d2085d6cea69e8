// C12, C15: what scrapes say, while metrics change and connections misbehave.
#include "pull.h"
#include "../rt/libs.h"
using namespace pull;

namespace pull {
void check_gone(const char* when) {
  if (u64 n = dsim::live_threads()) { char b[2048]; dsim::thread_block_report(b, sizeof b); fail(fmt("%llu thread(s) of the exposer are left %s: %s", (unsigned long long)n, when, b)); }
  if (u64 n = dsim::deflate_live()) fail(fmt("%llu compressor(s) have not been released %s", (unsigned long long)n, when));
  if (dsim::net_port_bound(PORT)) fail(std::string("the port is still bound ") + when);
}
}  // namespace pull

namespace {
// one a prefix of another as a string, one below another as a path
const char* paths[] = {"/metrics", "/other", "/metrics2", "/metrics/sub"};
enum { NPATH = 4 };
enum K { GET, INC, SETG, OBS, PAUSE, WALL, ABORT };
struct Upd { u64 inv, ret; double x; };
struct Reg3 {
  std::shared_ptr<Registry> reg;
  Counter* c; Gauge* g; Histogram* hi; Summary* s;
  std::vector<Upd> cu, gu, hu;
  int uri, big;
};
// takes a known time to collect
struct Slow : Collectable {
  u64 pause; mutable std::vector<std::pair<u64, u64>> took;      // event number of the end, steady nanoseconds
  explicit Slow(u64 d) : pause(d) {}
  std::vector<MetricFamily> Collect() const override {
    Outside o;
    u64 a = dsim::steady_ns();
    dsim::sleep_ns(pause);
    took.push_back({dsim::ev(), dsim::steady_ns() - a});
    MetricFamily f;
    f.name = "slow"; f.type = MetricType::Gauge;
    f.metric.resize(1);
    return {f};
  }
};
struct Got { http::Resp r; Text t; int uri; bool ok; };

const std::string nasty[] = {"plain", "a\\b", "q\"q", "l\nl", "{x=\"y\"}", "", "tail\\", std::string("n\0l", 3), "\r\t \xc3\xa9\xff"};
enum { NNASTY = 9 };

void run(const Plan& p) {
  paths[1] = p.get("root") ? "/" : "/other";
  Exposer* ex = start(p);
  const int nt = p.threads(), nreg = (int)p.get("regs");
  std::vector<Reg3> regs(nreg);
  Rng noise((u64)p.get("map"));
  std::shared_ptr<Slow> slow;
  std::string wide;                     // little to compress
  for (i64 j = 0; j < p.get("wide"); j++) { char ch = (char)(1 + noise.n(255)); wide += ch == '\n' || ch == '"' || ch == '\\' ? 'x' : ch; }
  for (int i = 0; i < nreg; i++) {
    Reg3& x = regs[i];
    x.uri = (int)(p.get("map") >> (2 * i) & 3) % NPATH;
    x.big = i == 0 ? (int)p.get("big") : 0;
    x.cu.reserve(64); x.gu.reserve(64); x.hu.reserve(64);
    std::string n = std::to_string(i), help = nasty[(p.get("map") >> (12 + i)) % NNASTY];
    Labels l{{"r", n}, {"text", nasty[(size_t)(p.get("map") >> 20) % NNASTY]}};
    API;
    x.reg = std::make_shared<Registry>();
    x.c = &BuildCounter().Name("c" + n).Help(help).Register(*x.reg).Add(l);
    x.g = &BuildGauge().Name("g" + n).Help(help).Register(*x.reg).Add(l);
    x.hi = &BuildHistogram().Name("h" + n).Register(*x.reg).Add(l, Histogram::BucketBoundaries{1, 5});
    x.s = &BuildSummary().Name("s" + n).Register(*x.reg).Add(l, Summary::Quantiles{{0.5, 0.05}}, std::chrono::hours(100));
    if (x.big) {
      auto& f = BuildGauge().Name("big" + n).Help("many").Register(*x.reg);
      for (int k = 0; k < x.big; k++) {
        std::string v = std::to_string(k * 7919 % 10007);
        if (p.get("dense")) { v.clear(); for (int j = 0; j < 64; j++) v += (char)(35 + noise.n(57)); }
        f.Add({{"k", std::to_string(k)}, {"v", v}}).Set(k * 0.5);
      }
    }
    if (i == 0 && !wide.empty()) BuildGauge().Name("wide").Register(*x.reg).Add({{"v", wide}}).Set(17);
    ex->RegisterCollectable(x.reg, paths[x.uri]);
  }
  if (p.get("slow")) {
    slow = std::make_shared<Slow>((u64)p.get("slow"));
    API;
    ex->RegisterCollectable(slow, paths[regs[0].uri]);
  }
  std::vector<std::vector<Got>> got(nt + 1);
  int open_requests = 0;
  (void)open_requests;
  auto judge = [&](http::Resp&& resp, int u, const GetOpt& o, int th) {
    Got g{std::move(resp), Text(), u, false};
    http::Resp& r = g.r;
    dsim::log_event((u64)r.status, r.body.size());
    if (!r.complete()) {
      if (!r.bad.empty()) fail("malformed response: " + r.bad);
      if (!excused(r)) fail("a scrape was not answered completely although nothing failed:" + show(r));
      dsim::probe(1);
      got[th].push_back(std::move(g));
      return;
    }
    std::string text, e = examine(r, o, text);
    if (!e.empty()) fail(e + ":" + show(r));
    if (!http::header(r.hs, "content-encoding").empty()) dsim::probe(2);
    else if (o.gzip) dsim::probe(3);
    if (r.body.size() > 32768) dsim::probe(http::header(r.hs, "content-encoding").empty() ? 4 : 6);
    r.text_size = text.size();
    e = parse(text, g.t);
    if (!e.empty()) fail(e + ":" + show(r));
    std::set<std::string> want(own_families, own_families + 3);
    for (int i = 0; i < nreg; i++) if (regs[i].uri == u) {
      std::string n = std::to_string(i);
      for (const char* k : {"c", "g", "h", "s"}) want.insert(k + n);
      if (regs[i].big) want.insert("big" + n);
    }
    if (slow && regs[0].uri == u) want.insert("slow");
    if (!wide.empty() && regs[0].uri == u) want.insert("wide");
    std::set<std::string> have;
    for (auto& f : g.t.fams) have.insert(f.name);
    for (auto& x : want) if (!have.count(x)) fail("a scrape of " + std::string(paths[u]) + " lacks family " + x);
    for (auto& x : have) if (!want.count(x)) fail("a scrape of " + std::string(paths[u]) + " shows family " + x + ", which is not registered there");
    g.ok = true;
    got[th].push_back(std::move(g));
  };
  Team t;
  for (int i = 0; i < nt; i++)
    t.go([&, i]() {
      Kept kept;
      for (auto& o : p.ops) {
        if (o.th != i) continue;
        switch (o.k) {
          case GET: { GetOpt g = options(o); judge(get(paths[o.a % NPATH], g, &kept), (int)(o.a % NPATH), g, i); break; }
          case ABORT: {      // asks, reads a part of the answer and is gone
            GetOpt g = options(o);
            Got a;
            a.uri = (int)(o.a % NPATH); a.ok = false;
            a.r.inv = dsim::ev(); a.r.steady_inv = dsim::steady_ns();
            int fd = http::dial(PORT, g.timeout);
            if (fd < 0) break;
            dsim::note_fault(dsim::F_APP);
            a.r.connected = true;
            a.r.sent = http::send_all(fd, request(paths[a.uri], g));
            if (o.c) http::receive(fd, a.r, 500, 0, (size_t)o.c, false);
            if (o.x > 0) dsim::sleep_ns((u64)o.x);
            if (o.y != 0) dsim::net_reset_conn(fd); else close(fd);
            a.r.body.clear();
            a.r.ret = dsim::ev(); a.r.steady_ret = dsim::steady_ns();
            got[i].push_back(std::move(a));
            dsim::probe(8);
            break;
          }
          // one updating thread per registry
          case INC: { Reg3& x = regs[o.a]; Upd u{dsim::ev(), 0, o.x}; { API; x.c->Increment(o.x); } u.ret = dsim::ev(); x.cu.push_back(u); break; }
          case SETG: { Reg3& x = regs[o.a]; Upd u{dsim::ev(), ~0ull, o.x}; x.gu.push_back(u); { API; x.g->Set(o.x); } x.gu.back().ret = dsim::ev(); break; }
          case OBS: { Reg3& x = regs[o.a]; Upd u{dsim::ev(), 0, 3}; { API; x.hi->Observe(3); x.s->Observe(3); } u.ret = dsim::ev(); x.hu.push_back(u); break; }
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
          case WALL: dsim::jump_wall(o.a * 1000000000ll); break;
        }
      }
    });
  t.join();
  // faults cease; every worker finishes what it is doing
  dsim::clear_faults();
  dsim::sleep_ns(100000000000ull);
  std::vector<double> scrapes(NPATH), bytes(NPATH), lat(NPATH), latn(NPATH);
  GetOpt plain;
  for (int u = 0; u < NPATH; u++) {
    bool any = false;
    for (auto& x : regs) if (x.uri == u) any = true;
    if (!any) continue;
    judge(get(paths[u], plain), u, plain, nt);
    if (!got[nt].back().ok) fail("a scrape after all faults ceased was not answered:" + show(got[nt].back().r));
    dsim::sleep_ns(20000000000ull);
  }
  // values lie between those before and after
  for (auto& v : got) for (auto& g : v) if (g.ok)
    for (int i = 0; i < nreg; i++) {
      Reg3& x = regs[i];
      if (x.uri != g.uri) continue;
      std::string n = std::to_string(i);
      const http::Resp& r = g.r;
      double c, gv, hc, hs, sc, ss;
      if (!g.t.value("c" + n, "c" + n, c) || !g.t.value("g" + n, "g" + n, gv) || !g.t.value("h" + n, "h" + n + "_count", hc) || !g.t.value("h" + n, "h" + n + "_sum", hs) || !g.t.value("s" + n, "s" + n + "_count", sc) || !g.t.value("s" + n, "s" + n + "_sum", ss)) fail("a sample is missing for registry " + n);
      double lo = 0, hi = 0;
      for (auto& u : x.cu) { if (u.ret < r.inv) lo += u.x; if (u.inv < r.ret) hi += u.x; }
      require(c >= lo && c <= hi, fmt("counter %d is %s in a response, but was %s before the request and at most %s after the response", i, dstr(c).c_str(), dstr(lo).c_str(), dstr(hi).c_str()) + show(r));
      int a = -1, b = -1;
      for (size_t k = 0; k < x.gu.size(); k++) { if (x.gu[k].ret < r.inv) a = (int)k; if (x.gu[k].inv < r.ret) b = (int)k; }
      bool ok = a < 0 && gv == 0;
      for (int k = a < 0 ? 0 : a; k <= b; k++) if (x.gu[k].x == gv) ok = true;
      require(ok, fmt("gauge %d is %s in a response, a value it did not have between request and response", i, dstr(gv).c_str()) + show(r));
      lo = hi = 0;
      for (auto& u : x.hu) { if (u.ret < r.inv) lo++; if (u.inv < r.ret) hi++; }
      require(hc >= lo && hc <= hi && hs == 3 * hc, fmt("histogram %d shows count %g sum %g, observations %g..%g of 3", i, hc, hs, lo, hi) + show(r));
      require(sc >= lo && sc <= hi && ss == 3 * sc, fmt("summary %d shows count %g sum %g, observations %g..%g of 3", i, sc, ss, lo, hi) + show(r));
      if (i == 0 && !wide.empty()) {
        auto* f = g.t.find("wide");
        if (f->s.size() != 1 || f->s[0].labels.size() != 1 || f->s[0].labels[0].second != wide || f->s[0].raw != "17") fail("family wide is garbled" + show(r));
      }
      if (x.big) {
        auto* f = g.t.find("big" + n);
        require((int)f->s.size() == x.big, fmt("family big shows %zu metrics of %d", f->s.size(), x.big));
        std::set<std::string> ks;
        for (auto& s : f->s) { double v; if (s.labels.size() != 2 || !expo::number(s.raw, v) || v != atoi(s.labels[0].second.c_str()) * 0.5 || !ks.insert(s.labels[0].second).second) fail("family big is garbled: " + expo::show(s)); }
      }
      const expo::Fam* f = g.t.find("c" + n);
      require(f->help == nasty[(p.get("map") >> (12 + i)) % NNASTY] && f->type == "counter", "wrong help or type for c" + n);
      require(f->s.size() == 1 && f->s[0].labels.size() == 2 && f->s[0].labels[1].second == nasty[(size_t)(p.get("map") >> 20) % NNASTY], "wrong labels for c" + n);
    }
  // C15: the exposer's own account
  for (int u = 0; u < NPATH; u++) {
    std::vector<const Got*> all;
    for (auto& v : got) for (auto& g : v) if (g.uri == u) all.push_back(&g);
    u64 attempts = 0, done = 0, body = 0, text = 0;
    double dur = 0;
    for (auto g : all) {
      if (!g->r.connected) continue;
      attempts += 1 + g->r.maybe;
      if (g->ok) { done++; body += g->r.body.size(); text = std::max(text, (u64)g->r.text_size); }
      dur += (double)(g->r.steady_ret - g->r.steady_inv) / 1000;
    }
    for (auto g : all) {
      if (!g->ok) continue;
      double n, by, ln, ls;
      if (!g->t.value(own_families[1], own_families[1], n) || !g->t.value(own_families[0], own_families[0], by) || !g->t.value(own_families[2], std::string(own_families[2]) + "_count", ln) || !g->t.value(own_families[2], std::string(own_families[2]) + "_sum", ls)) fail("a metric of the exposer itself is missing");
      u64 hi = g->r.maybe, hib = 0;
      u64 lost = g->r.maybe;
      for (auto o : all) if (o != g && o->r.connected && o->r.inv < g->r.ret) { hi += 1 + o->r.maybe; hib += o->r.body.size(); lost += o->r.maybe + !o->ok; }
      require(n <= (double)hi, fmt("exposer_scrapes_total is %g although only %llu other scrapes had been requested", n, (unsigned long long)hi) + show(g->r));
      require(ln <= (double)hi, fmt("exposer_request_latencies has %g observations although only %llu other scrapes had been requested", ln, (unsigned long long)hi) + show(g->r));
      // (what was sent to clients that did not stay is some text of this URI)
      hib += lost * (text + 4096);
      require(by <= (double)hib, fmt("exposer_transferred_bytes_total is %g although at most %llu bytes had been sent", by, (unsigned long long)hib) + show(g->r));
      require(ls >= 0 && n >= 0 && by >= 0, "a metric of the exposer is negative");
      for (auto o : all) {
        if (!o->ok || o->r.ret >= g->r.inv) continue;
        double n0, b0, l0, s0;
        o->t.value(own_families[1], own_families[1], n0); o->t.value(own_families[0], own_families[0], b0);
        o->t.value(own_families[2], std::string(own_families[2]) + "_count", l0); o->t.value(own_families[2], std::string(own_families[2]) + "_sum", s0);
        require(n >= n0 && by >= b0 && ln >= l0 && ls >= s0, "a metric of the exposer has decreased");
      }
    }
    for (auto& g : got[nt]) if (g.uri == u) {
      double n, by, ln;
      g.t.value(own_families[1], own_families[1], n); g.t.value(own_families[0], own_families[0], by); g.t.value(own_families[2], std::string(own_families[2]) + "_count", ln);
      require(n == ln, fmt("%g scrapes, but %g latencies although no scrape is in progress", n, ln));
      require(n >= (double)(done - 1) && n <= (double)(attempts - 1), fmt("exposer_scrapes_total is %g after %llu complete and %llu attempted scrapes", n, (unsigned long long)done - 1, (unsigned long long)attempts - 1));
      require(by >= (double)(body - g.r.body.size()), fmt("exposer_transferred_bytes_total is %g although %llu bytes have arrived", by, (unsigned long long)(body - g.r.body.size())));
    }
    if (got[nt].size() && attempts == done) {
      // exact once nothing is in progress: the last scrape shows all the others
      for (auto& g : got[nt]) if (g.uri == u) {
        double n, by, ln, ls;
        g.t.value(own_families[1], own_families[1], n); g.t.value(own_families[0], own_families[0], by);
        g.t.value(own_families[2], std::string(own_families[2]) + "_count", ln); g.t.value(own_families[2], std::string(own_families[2]) + "_sum", ls);
        dsim::probe(5);
        require(n == (double)(done - 1), fmt("exposer_scrapes_total is %g after %llu scrapes", n, (unsigned long long)done - 1));
        require(by == (double)(body - g.r.body.size()), fmt("exposer_transferred_bytes_total is %g after %llu bytes", by, (unsigned long long)(body - g.r.body.size())));
        require(ln == (double)(done - 1), fmt("exposer_request_latencies has %g observations after %llu scrapes", ln, (unsigned long long)done - 1));
        if (slow && regs[0].uri == u) {
          double low = 0;
          for (auto& x : slow->took) if (x.first < g.r.inv) low += (double)x.second / 1000;
          require(ls >= low - 1.0 * (double)done, fmt("latencies add up to %g microseconds, but collecting alone took %g", ls, low));
          dsim::probe(7);
        }
        if (!p.get("stalls")) require(ls <= dur + 1000.0 * (double)done, fmt("latencies add up to %g microseconds, but the clients waited only %g", ls, dur));
      }
    }
  }
  { API; slow.reset(); for (auto& x : regs) x.reg.reset(); delete ex; }
  got.clear();
  check_gone("after the exposer was destroyed");
  check_leaks("the exposer and all registries were destroyed");
}

void gen_any(Plan& p, Rng& r, bool rush) {
  if (r.pct(12)) p.cfg["tick"] = 1;
  p.cfg["workers"] = r.in(1, 4);
  p.cfg["keep"] = r.pct(40);
  p.cfg["simple_ctor"] = r.pct(20);
  if (p.cfg["simple_ctor"]) p.cfg["keep"] = 0;
  int nreg = 1 + (int)r.n(4);
  p.cfg["regs"] = nreg;
  p.cfg["map"] = (i64)(r.next() >> 8);
  p.cfg["big"] = r.of<i64>({0, 0, 0, 3, 40, 300, 1200});
  if (p.cfg["big"] > 40) p.cfg["max_plain"] = 500000000;
  p.cfg["dense"] = r.pct(50);
  if (p.cfg["big"] == 0 && r.pct(6)) p.cfg["wide"] = r.in(30000, 400000), p.cfg["race"] = 0, p.cfg["max_plain"] = 500000000;
  p.cfg["root"] = r.pct(20);
  if (r.pct(40)) p.cfg["slow"] = r.of<i64>({1000, 300000, 5000000, 40000000});
  if (rush) p.cfg["big"] = r.pct(80) ? 0 : 3, p.cfg.erase("wide"), p.cfg.erase("max_plain"), p.cfg.erase("race");
  if (p.cfg["big"] > 40) p.cfg["race"] = 0;
  const bool crowd = rush || (p.cfg["big"] <= 40 && !p.get("wide") && r.pct(10));
  if (crowd) p.cfg["workers"] = r.in(4, 8), p.cfg["map"] = 0, p.cfg["keep"] = 0;
  int cl = crowd ? 4 + (int)r.n(4) : 1 + (int)r.n(4), up = (int)r.n(3);
  int reqs = cl + (int)r.n(6);
  i64 opts = r.pct(30) ? 0 : -1;
  bool aborts = r.pct(30);
  for (int i = 0; i < reqs; i++) {
    i64 b = opts ? (i64)r.n(1u << 11) : r.n(2);
    if (p.cfg["big"] > 40 || p.get("wide")) b &= ~(7 << 4), b |= (i64)r.of<int>({0, 3, 4, 4}) << 4;
    if (r.pct(crowd ? 2 : 10)) p.add(i < cl ? i : (int)r.n(cl), PAUSE, (i64)r.n(50000000));
    if (aborts && r.pct(40)) p.add((int)r.n(cl), ABORT, (p.cfg["map"] >> (2 * r.n(nreg)) & 3) % NPATH, b & 1, r.pct(60) ? 0 : (i64)r.n(r.pct(50) ? 600 : 30000), r.pct(50) ? 0 : (double)r.n(30000000), r.pct(60));
    p.add(i < cl ? i : (int)r.n(cl), GET, (p.cfg["map"] >> (2 * r.n(nreg)) & 3) % NPATH, b);
  }
  double u = 1;
  for (int i = 0; i < up && i < nreg; i++) {
    int n = 1 + (int)r.n(6);
    for (int k = 0; k < n; k++) {
      switch (r.n(4)) {
        case 0: p.add(cl + i, INC, i, 0, 0, (double)r.in(1, 5)); break;
        case 1: p.add(cl + i, SETG, i, 0, 0, u += 1.5); break;
        case 2: p.add(cl + i, OBS, i); break;
        default: p.add(cl + i, PAUSE, (i64)r.n(3000000)); break;
      }
      if (r.pct(10)) p.add(cl + i, WALL, r.in(-100000, 100000));
    }
  }
  if (r.pct(40)) set_fault(p, dsim::F_NET_SHORT_SEND, 300000, 40);
  if (r.pct(40)) set_fault(p, dsim::F_NET_SHORT_RECV, 200000, 40);
  if (r.pct(crowd ? 30 : 60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(15)) { set_fault(p, dsim::F_NET_STALL, 20000, 3); }
  if (r.pct(15)) set_fault(p, dsim::F_NET_RST, 20000, 2);
  if (r.pct(30)) set_fault(p, dsim::F_ZLIB, 400000, 4);
  if (r.pct(30)) set_fault(p, dsim::F_WALL_JUMP, 20000, 4);
  if (r.pct(20)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 200000000; p.cfg["stalls"] = 1; }
  p.cfg["net_window"] = r.of<i64>({65536, 65536, 2000, 8000, 300000});
}
void gen(Plan& p, Rng& r) { gen_any(p, r, false); }
// many clients at once on one path with a worker for each
void gen_rush(Plan& p, Rng& r) { gen_any(p, r, true); }
const char* const probes[] = {"-", "incomplete_answer", "gzip_answer", "compression_failed_and_sent_plain", "body_above_32k", "quiescent_account_compared", "gzip_answer_above_32k", "latencies_compared_from_below", "client_gone_early", nullptr};
Reg r_({"scrape", gen, run, probes, "Exposer, Endpoint, MetricsHandler, metrics collector, serializer, core (instrumented C++), civetweb 1.16 and zlib (unmodified shared libraries)",
        "TCP (latency, segmentation, resets, windows), clocks, scheduler, threads, mutexes, allocator, HTTP clients"});
Reg r2_({"rush", gen_rush, run, probes, "Exposer, Endpoint, MetricsHandler, metrics collector, serializer, core (instrumented C++), civetweb 1.16 and zlib (unmodified shared libraries)",
        "TCP (latency, segmentation, resets, windows), clocks, scheduler, threads, mutexes, allocator, HTTP clients"});
}  // namespace
