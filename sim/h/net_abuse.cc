// C16: clients that misbehave, and an exposer that is destroyed under load.
#include "pull.h"
#include <prometheus/collectable.h>
using namespace pull;

namespace {
enum K { BAD, GOOD, PAUSE };
enum B { SILENT, GARBAGE, HALF, STOP_READING, DRIP_REQUEST, LEAVE, RESET, HUGE_HEADER, PIPELINE, ODD_METHOD, LYING_LENGTH, DRIP_READ, OLD_PROTOCOL, FLOOD, NB };
struct Watch {
  u64 live = 0, gone = ~0ull;
  u64 calls = 0, running = 0;
  u64 coins = 0;       // decides about the user the callback cannot make its mind up about
};
struct Probe : Collectable {
  Watch* w; int lines; u64 slow;
  Probe(Watch* x, int n, u64 s) : w(x), lines(n), slow(s) { w->live++; }
  ~Probe() override { w->live--; }
  std::vector<MetricFamily> Collect() const override {
    Outside o;
    if (w->gone != ~0ull) fail("a collectable was called after the exposer had been destroyed");
    w->calls++; w->running++;
    if (slow) dsim::sleep_ns(slow);
    MetricFamily f;
    f.name = "probe"; f.type = MetricType::Gauge;
    f.metric.resize((size_t)lines);
    for (int i = 0; i < lines; i++) { f.metric[i].label = {{"i", std::to_string(i)}}; f.metric[i].gauge.value = i; }
    if (w->gone != ~0ull) fail("a collectable was still being called when the exposer had been destroyed");
    w->running--;
    return std::vector<MetricFamily>(1, f);
  }
};
struct Allow {
  Watch* w;
  bool operator()(const std::string& u, const std::string& p) const {
    Outside o;
    if (w->gone != ~0ull) fail("an authentication callback was called after the exposer had been destroyed");
    dsim::yield_point();
    if (u == "fickle") return p == "p" && ++w->coins * 0x9e3779b97f4a7c15ull >> 63;
    return u == "u" && p == "p";
  }
};

// returns when the client has gone
void misbehave(const Plan& p, const Op& o, int uri) {
  static const char* const methods[] = {"POST", "HEAD", "PUT", "DELETE", "OPTIONS", "TRACE", "BREW", "PATCH", "", "CONNECT", "PROPFIND"};
  Rng r((u64)o.c);
  u64 stay = (u64)o.x;
  int fd = http::dial(PORT, 400000000000ull);
  if (fd < 0) return;
  GetOpt g;
  g.gzip = r.pct(50);
  g.keep = r.pct(50);
  g.extra = "Authorization: Basic dTpw\r\n";
  std::string q = request(uris[uri], g);
  http::Resp resp;
  dsim::note_fault(dsim::F_APP);
  bool reset = o.y != 0;
  switch ((B)o.b) {
    case SILENT: break;
    case GARBAGE: {
      std::string s;
      size_t n = 1 + r.n(2000);
      for (size_t i = 0; i < n; i++) s += r.pct(70) ? (char)r.n(256) : "\r\n /:"[r.n(5)];
      http::send_all(fd, s);
      if (r.pct(50)) http::receive(fd, resp, 0, 0, 10, false);
      break;
    }
    case HALF: http::send_all(fd, q.substr(0, r.n(q.size()))); break;
    case STOP_READING: http::send_all(fd, q); http::receive(fd, resp, 50, 0, r.n(300), false); break;
    case DRIP_REQUEST: {
      u64 t0 = dsim::now();
      for (size_t i = 0; i < q.size() && dsim::now() - t0 < stay; i++) { if (!http::send_all(fd, q.substr(i, 1))) break; dsim::sleep_ns(1000000000ull); }
      break;
    }
    case LEAVE: http::send_all(fd, q); stay = 0; break;
    case RESET: http::send_all(fd, q); if (r.pct(50)) dsim::sleep_ns(r.n(3000000)); if (r.pct(50)) http::receive(fd, resp, 50, 0, 1 + r.n(500), false); stay = 0; reset = true; break;
    case HUGE_HEADER: {
      std::string h = "GET " + std::string(uris[uri]) + " HTTP/1.1\r\n";
      if (r.pct(50)) h += "X: " + std::string(20000, 'x') + "\r\n\r\n";
      else { for (int i = 0; i < 200; i++) h += "X" + std::to_string(i) + ": y\r\n"; h += "\r\n"; }
      http::send_all(fd, h);
      http::receive(fd, resp, 0, 0, 10, false);
      break;
    }
    case PIPELINE: {
      std::string h;
      for (int i = 0; i < 5; i++) h += q;
      http::send_all(fd, h);
      if (r.pct(50)) http::receive(fd, resp, 0, 0, r.n(5000), false);
      break;
    }
    case ODD_METHOD: {
      q = methods[r.n(11)] + q.substr(3);
      if (r.pct(60)) q.replace(q.find("dTpw"), 4, "Zmlja2xlOnA=");      // fickle:p
      http::send_all(fd, q);
      http::receive(fd, resp, 0, 0, 10, false);
      break;
    }
    case LYING_LENGTH: {
      static const char* const l[] = {"100000", "-1", "99999999999999999999999", "abc", "0x10", "", "5, 6"};
      http::send_all(fd, (r.pct(50) ? "POST " : "GET ") + std::string(uris[uri]) + " HTTP/1.1\r\nHost: x\r\nContent-Length: " + l[r.n(7)] + "\r\n" + (r.pct(30) ? "Transfer-Encoding: chunked\r\n" : "") + "Authorization: Basic dTpw\r\n\r\nabc");
      if (r.pct(50)) http::receive(fd, resp, 0, 0, 10, false);
      break;
    }
    case DRIP_READ: {
      http::send_all(fd, q);
      u64 t0 = dsim::now();
      char c;
      while (dsim::now() - t0 < stay && recv(fd, &c, 1, 0) == 1) dsim::sleep_ns(500000000ull);
      break;
    }
    case OLD_PROTOCOL: {
      static const char* const l[] = {"GET /metrics\r\n\r\n", "GET /metrics HTTP/0.9\r\n\r\n", "GET /metrics HTTP/9.9\r\n\r\n", "\r\n\r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET http://localhost/metrics HTTP/1.1\r\n\r\n", "GET /../../etc/passwd HTTP/1.1\r\n\r\n", "GET /metrics%00 HTTP/1.0\r\n\r\n", "GET * HTTP/1.1\r\n\r\n"};
      http::send_all(fd, l[r.n(9)]);
      http::receive(fd, resp, 0, 0, 10, false);
      break;
    }
    case FLOOD: {
      std::vector<int> more;
      for (int i = 0; i < 12; i++) { int f = http::dial(PORT, 1000000000ull); if (f >= 0) more.push_back(f); }
      dsim::sleep_ns(stay);
      for (int f : more) { if (r.pct(50)) dsim::net_reset_conn(f); else close(f); }
      stay = 0;
      break;
    }
    default: break;
  }
  if (stay) dsim::sleep_ns(stay);
  if (reset) dsim::net_reset_conn(fd); else close(fd);
}

void run(const Plan& p) {
  Watch w;
  const u64 fds0 = dsim::open_sim_fds();
  Exposer* ex = start(p);
  const int nt = p.threads(), nu = (int)p.get("uris", 1);
  std::vector<std::shared_ptr<Probe>> probes(nu);
  for (int u = 0; u < nu; u++) {
    API;
    probes[u] = std::make_shared<Probe>(&w, (int)p.get("lines", 1), (u64)p.get("slow"));
    std::weak_ptr<Collectable> c = probes[u];
    ex->RegisterCollectable(c, uris[u]);
    if (p.get("auth") >> u & 1) { Allow a{&w}; ex->RegisterAuth(a, "r", uris[u]); }
  }
  if (p.get("second")) {
    // the port is taken: construction fails and disturbs nothing
    bool threw = false;
    { API; try { Exposer e2({"listening_ports", "127.0.0.1:9999", "num_threads", "1"}); } catch (const std::exception&) { threw = true; } }
    if (!threw) fail("a second exposer was constructed on a port in use");
    if (!dsim::net_port_bound(PORT)) fail("a failed construction released the port of another exposer");
    dsim::probe(5);
  }
  GetOpt plain;
  plain.extra = "Authorization: Basic dTpw\r\n";
  auto check = [&](const http::Resp& r, int u, const char* when) {
    std::string text, e = examine(r, plain, text);
    Text t;
    if (e.empty()) e = parse(text, t);
    const expo::Fam* f = t.find("probe");
    if (e.empty() && (!f || f->s.size() != (size_t)p.get("lines", 1))) e = "the collectable is missing or incomplete";
    if (!e.empty()) fail(e + when + show(r));
    (void)u;
  };
  bool served = true;
  u64 end_at = ~0ull;      // the exposer is destroyed before that
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        switch (o.k) {
          case BAD: misbehave(p, o, (int)(o.a % nu)); break;
          case GOOD: {
            int u = (int)(o.a % nu);
            http::Resp r = get(uris[u], plain);
            if (r.complete() && !(r.status == 404 && end_at != ~0ull)) check(r, u, " among bad clients");
            else if (!excused(r, p.get("rq_timeout") ? (u64)p.get("rq_timeout") * 500000 : 10000000000ull) && end_at == ~0ull) fail("a scrape was not answered completely although nothing failed:" + show(r));
            break;
          }
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
        }
      }
    });
  if (p.get("destroy_at") > 0) dsim::sleep_ns((u64)p.get("destroy_at"));
  else {
    t.join();
    // all have gone: a round of concurrent scrapes is served
    dsim::clear_faults();
    const u64 bound = 60000000000ull + (u64)p.get("workers", 2) * 2 * (u64)p.get("slow");
    int k = (int)p.get("workers", 2) + 2;
    u64 t0 = dsim::now();
    Team good;
    std::vector<http::Resp> res(k);
    for (int i = 0; i < k; i++) good.go([&, i]() { res[i] = get(uris[i % nu], plain); });
    if (!good.join_until(t0 + bound)) fail(fmt("scrapes are not served %.0f s after the last bad client has gone", (double)bound / 1e9));
    for (int i = 0; i < k; i++) {
      if (!res[i].complete()) fail("a scrape after the bad clients have gone was not answered completely:" + show(res[i]));
      check(res[i], i % nu, " after the bad clients have gone");
    }
    dsim::probe(1);
  }
  (void)served;
  end_at = dsim::ev();
  u64 t0 = dsim::now();
  struct D { Exposer* ex; bool done; } d{ex, false};
  Team killer;
  killer.go([&]() { { API; delete d.ex; } w.gone = dsim::ev(); d.done = true; });
  if (!killer.join_until(t0 + 600000000000ull)) { char b[4096]; dsim::thread_block_report(b, sizeof b); fail(std::string("destroying the exposer has not returned after 600 s of simulated time: ") + b); }
  if (w.running) fail("a collectable is still being called although the exposer has been destroyed");
  check_gone("after the exposer was destroyed");
  if (dsim::now() - t0 > 1000000000ull) dsim::probe(2);
  if (p.get("destroy_at") > 0) { dsim::probe(3); dsim::clear_faults(); t.join(); }
  // (civetweb itself forgets connections that it had queued for its workers)
  if (dsim::open_idle_fds()) dsim::probe(4);
  if (dsim::open_sim_fds() != fds0) fail(fmt("%llu socket(s) of the exposer are left open", (unsigned long long)(dsim::open_sim_fds() - fds0)));
  for (auto& x : probes) if (x.use_count() != 1) fail("a collectable is kept alive after the exposer was destroyed");
  { API; probes.clear(); }
  check_leaks("the exposer was destroyed");
  // the port is free again
  w.gone = ~0ull;
  Exposer* e2 = nullptr;
  std::shared_ptr<Probe> again;
  {
    API;
    try { e2 = new Exposer({"listening_ports", "127.0.0.1:9999", "num_threads", "1"}); } catch (const std::exception& x) { fail(std::string("the port cannot be bound again: ") + x.what()); }
    again = std::make_shared<Probe>(&w, (int)p.get("lines", 1), 0);
    std::weak_ptr<Collectable> c = again;
    e2->RegisterCollectable(c, uris[0]);
  }
  http::Resp r = get(uris[0], plain);
  if (!r.complete()) fail("a new exposer on the same port does not answer:" + show(r));
  check(r, 0, " from a new exposer");
  { API; delete e2; again.reset(); }
  check_gone("after the second exposer was destroyed");
  check_leaks("the second exposer was destroyed");
}

void gen(Plan& p, Rng& r) {
  p.cfg["max_sync"] = 6000000;   // civetweb polls every millisecond while it waits for a handler
  p.cfg["workers"] = r.in(1, 3);
  p.cfg["keep"] = r.pct(40);
  if (r.pct(40)) p.cfg["rq_timeout"] = r.of<i64>({1000, 5000, 20000});
  p.cfg["uris"] = r.in(1, 2);
  p.cfg["auth"] = (i64)r.n(4);
  p.cfg["lines"] = r.of<i64>({1, 1, 30, 30, 400});
  if (p.cfg["lines"] > 100) p.cfg["race"] = 0;
  p.cfg["slow"] = r.of<i64>({0, 0, 0, 1000000, 200000000});
  p.cfg["second"] = r.pct(15);
  int bad = 1 + (int)r.n(5), good = (int)r.n(3);
  u32 mask = 0;
  for (int i = 0; i < 3; i++) mask |= 1u << r.n(NB);
  if (r.pct(40)) mask = (1u << NB) - 1;
  auto kind = [&]() { int k; do k = (int)r.n(NB); while (!(mask >> k & 1)); return k; };
  double longest = r.pct(50) ? 3e9 : 100e9;
  for (int i = 0; i < bad; i++) {
    int n = 1 + (int)r.n(3);
    for (int k = 0; k < n; k++) {
      if (r.pct(30)) p.add(i, PAUSE, (i64)r.n(200000000));
      p.add(i, BAD, (i64)r.n(2), kind(), (i64)(r.next() >> 16), r.pct(30) ? 0 : (double)r.n((u64)longest), r.pct(40) ? 1 : 0);
    }
  }
  for (int i = 0; i < good; i++) { if (r.pct(50)) p.add(bad + i, PAUSE, (i64)r.n(2000000000)); p.add(bad + i, GOOD, (i64)r.n(2)); }
  p.cfg["destroy_at"] = r.pct(50) ? 1 + (i64)r.n(r.of<u64>({300000, 3000000, 100000000, 5000000000ull, 60000000000ull})) : 0;
  p.cfg["net_window"] = r.of<i64>({100, 1000, 4000, 65536});
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_SEND, 200000, 40);
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_RECV, 200000, 40);
  if (r.pct(60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(20)) set_fault(p, dsim::F_NET_STALL, 20000, 3);
  if (r.pct(30)) set_fault(p, dsim::F_NET_RST, 30000, 5);
  if (r.pct(30)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 100000000; }
}
const char* const probes[] = {"-", "served_after_bad_clients", "destruction_waited_over_1s", "destroyed_under_load", "queued_connection_forgotten_by_civetweb", "second_exposer_refused", nullptr};
Reg r_({"abuse", gen, run, probes, "Exposer, Endpoint, BasicAuthHandler, MetricsHandler (instrumented C++), civetweb 1.16 (unmodified shared library)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, HTTP clients, collectables"});

// ------------------------------------------------------------------ while the bad clients are there
// Fewer bad clients than workers, and they stay: everybody else is served.
struct Nothing : Collectable { std::vector<MetricFamily> Collect() const override { return {}; } };
enum SK { SIEGE, SCRAPE, REG, REM, AUTHS, NEWURI, WAIT };
void run_siege(const Plan& p) {
  Watch w;
  Exposer* ex = start(p);
  const int nu = (int)p.get("uris", 1), nt = p.threads();
  std::vector<std::shared_ptr<Probe>> probes(nu);
  for (int u = 0; u < nu; u++) {
    API;
    probes[u] = std::make_shared<Probe>(&w, (int)p.get("lines", 1), 0);
    ex->RegisterCollectable(probes[u], uris[u]);
    if (p.get("auth") >> u & 1) { Allow a{&w}; ex->RegisterAuth(a, "r", uris[u]); }
  }
  GetOpt plain;
  plain.extra = "Authorization: Basic dTpw\r\n";
  plain.timeout = 25000000000ull;
  const u64 limit = 20000000000ull;
  bool over = false;
  Team siege;
  for (auto& o : p.ops) if (o.k == SIEGE) {
    const Op* q = &o;
    siege.go([&, q]() { misbehave(p, *q, (int)(q->a % nu)); if (!over) fail("harness: a besieger left early"); });
  }
  dsim::sleep_ns((u64)p.get("settle"));
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      int fresh = 0;
      for (auto& o : p.ops) {
        if (o.th != th || o.k == SIEGE) continue;
        const int u = (int)(o.a % nu);
        const u64 t0 = dsim::now();
        switch (o.k) {
          case SCRAPE: {
            GetOpt g = plain;
            g.gzip = o.b & 1;
            http::Resp r = get(uris[u], g);
            std::string text, e = examine(r, g, text);
            Text x;
            if (e.empty()) e = parse(text, x);
            if (e.empty() && !x.find("probe")) e = "the collectable is missing";
            if (!e.empty()) fail(e + " while other clients misbehave although a worker is free" + show(r));
            dsim::probe(1);
            break;
          }
          case REG: case REM: {
            API;
            auto x = std::make_shared<Nothing>();
            ex->RegisterCollectable(x, "/else");
            if (o.k == REM) ex->RemoveCollectable(x, "/else");
            auto none = std::make_shared<Nothing>();
            ex->RegisterCollectable(none, uris[u]);
            if (o.b & 1) ex->RemoveCollectable(none, uris[u]);
            break;
          }
          case AUTHS: { Allow a{&w}; API; ex->RegisterAuth(a, "other", uris[u]); break; }
          case NEWURI: { API; ex->RegisterCollectable(probes[u], "/new" + std::to_string(th) + std::to_string(fresh++)); break; }
          case WAIT: dsim::sleep_ns((u64)o.a); continue;
        }
        if (dsim::now() - t0 > limit) fail(fmt("%s took %.1f s of simulated time while other clients misbehave although a worker is free", o.k == SCRAPE ? "a scrape" : "a call on the exposer", (double)(dsim::now() - t0) / 1e9));
      }
    });
  u64 all = 1000000000ull;
  for (auto& o : p.ops) all += o.k == WAIT ? (u64)o.a : o.k == SIEGE ? 0 : limit;
  if (!t.join_until(dsim::now() + all)) { char b[4096]; dsim::thread_block_report(b, sizeof b); fail(fmt("calls on the exposer or scrapes have not returned after %.0f s of simulated time while other clients misbehave although a worker is free: %s", (double)all / 1e9, b)); }
  over = true;
  { API; delete ex; }
  w.gone = dsim::ev();
  siege.join();
  check_gone("after the exposer was destroyed");
  { API; probes.clear(); }
  check_leaks("the exposer was destroyed");
}
void gen_siege(Plan& p, Rng& r) {
  p.cfg["max_sync"] = 20000000;
  p.cfg["workers"] = r.in(2, 4);
  p.cfg["keep"] = r.pct(40);
  p.cfg["uris"] = r.in(1, 2);
  p.cfg["auth"] = (i64)r.n(4);
  p.cfg["lines"] = r.of<i64>({1, 30, 400});
  if (p.cfg["lines"] > 100) p.cfg["race"] = 0;
  p.cfg["settle"] = r.of<i64>({1, 1000000, 100000000, 3000000000});
  p.cfg["net_window"] = r.of<i64>({100, 1000, 4000});
  int n = 1 + (int)r.n((u64)p.cfg["workers"] - 1);
  for (int i = 0; i < n; i++)
    p.add(0, SIEGE, (i64)r.n(2), r.of<i64>({SILENT, HALF, STOP_READING, STOP_READING, STOP_READING, LYING_LENGTH, DRIP_READ, DRIP_REQUEST}), (i64)(r.next() >> 16), 4e11, r.pct(40) ? 1 : 0);
  int nt = 1 + (int)r.n(2), scrapers = 0;
  for (int t = 0; t < nt; t++) {
    bool scrape = t == 0;      // one scrape at a time: there may be only one worker left
    int k = 1 + (int)r.n(4);
    for (int i = 0; i < k; i++) {
      if (r.pct(20)) p.add(t, WAIT, (i64)r.n(3000000000));
      if (scrape && (i == 0 || r.pct(60))) { p.add(t, SCRAPE, (i64)r.n(2), (i64)r.n(2)); scrapers++; }
      else p.add(t, r.of<int>({REG, REM, AUTHS, NEWURI}), (i64)r.n(2), (i64)r.n(2));
    }
  }
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_SEND, 200000, 40);
  if (r.pct(60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
}
const char* const probes_siege[] = {"-", "served_during_siege", nullptr};
Reg r2_({"siege", gen_siege, run_siege, probes_siege, "Exposer, Endpoint, BasicAuthHandler, MetricsHandler (instrumented C++), civetweb 1.16 (unmodified shared library)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, HTTP clients, collectables"});
}  // namespace
