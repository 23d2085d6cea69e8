// C10: a collectable, a callback or a peer that does not return holds up neither
// other URIs, exposers, registries nor other gateways.
#include "peer.h"
#include <prometheus/collectable.h>
#include <prometheus/gateway.h>
#include <prometheus/text_serializer.h>
using namespace pull;

namespace {
enum { PORT_B = 10000, PEER_1 = 9091, PEER_2 = 9092 };
// who is stuck: a scrape in a collectable, a request in its callback, a push in
// a collectable, a push whose peer is silent, one scrape behind another,
// a removal behind a scrape, an asynchronous push whose peer is silent
enum S { S_COLLECT, S_AUTH, S_PUSH, S_PEER, S_COLLECT2, S_REMOVE, S_APEER, S_READER, S_DIRECT, NS };
enum K { GET_B, GET_OTHER, REG_B, REM_B, REG_A_OTHER, PUSH_2, APUSH_2, DEL_2, HDR_2, REG_2, UPDATE, REGISTRY, DIRECT, NEWGW, NEWEX, AUTH_B, GET_AUTHED, REG_LATE, NK };
const char* const opname[] = {"a scrape of another exposer", "a scrape of another URI", "a registration with another exposer", "a removal from another exposer", "a registration at another URI", "a push to another Pushgateway", "an asynchronous push to another Pushgateway", "a delete", "AddHttpHeader", "a registration with another gateway",
                              "an update of a metric", "a registration of a metric", "collecting a registry", "construction of a gateway", "construction of an exposer", "RegisterAuth with another exposer", "a request to another protected URI", "a registration of what is stuck with others"};
struct Gate {
  volatile bool closed = true;
  volatile int in = 0;
  u64 limit;
  void pass() {
    in = in + 1;
    dsim::note_fault(dsim::F_APP);
    while (closed && dsim::now() < limit) dsim::sleep_ns(100000000ull);
  }
};
struct Stuck : Collectable {
  Gate& g;
  explicit Stuck(Gate& x) : g(x) {}
  std::vector<MetricFamily> Collect() const override { Outside o; g.pass(); return {}; }
};
void run(const Plan& p) {
  const int nt = p.threads(), what = (int)p.get("stuck");
  Gate gate;
  gate.limit = dsim::now() + 500000000000ull;
  auto reg = std::make_shared<Registry>();
  auto& fc = BuildCounter().Name("c").Register(*reg);
  auto& fh = BuildHistogram().Name("hist").Register(*reg);
  auto& fs = BuildSummary().Name("summ").Register(*reg);
  Counter& c = fc.Add({});
  Histogram& hi = fh.Add({}, Histogram::BucketBoundaries{1, 2});
  Summary& su = fs.Add({}, Summary::Quantiles{{0.5, 0.05}});
  auto stuck = std::make_shared<Stuck>(gate);
  std::shared_ptr<Registry> extra[8];
  for (auto& x : extra) { x = std::make_shared<Registry>(); BuildGauge().Name("e").Register(*x).Add({}).Set(1); }
  Plan pa;
  pa.cfg["workers"] = p.get("workers");
  Exposer* a = start(pa);
  Exposer* b;
  { API; b = new Exposer("127.0.0.1:10000", 2); }
  {
    API;
    a->RegisterCollectable(reg, uris[0]);
    if (what == S_COLLECT || what == S_COLLECT2 || what == S_REMOVE) a->RegisterCollectable(stuck, uris[0]);
    a->RegisterCollectable(reg, uris[1]);
    a->RegisterAuth([&](const std::string& u, const std::string&) { Outside o; if (u == "stuck") gate.pass(); return true; }, "realm", "/auth1");
    a->RegisterAuth([&](const std::string&, const std::string&) { return true; }, "realm", "/auth2");
    a->RegisterCollectable(extra[0], "/auth1");
    a->RegisterCollectable(extra[0], "/auth2");
    b->RegisterCollectable(reg, uris[0]);
  }
  Peer p1(PEER_1), p2(PEER_2);
  if (what == S_PEER || what == S_APEER) p1.on = [&](const std::string&, const std::string&) { gate.pass(); };
  Gateway *g1, *g2;
  {
    API;
    g1 = new Gateway("127.0.0.1", "9091", "job1");
    g2 = new Gateway("127.0.0.1", "9092", "job2");
    if (what == S_PUSH) g1->RegisterCollectable(stuck); else g1->RegisterCollectable(reg);
    g2->RegisterCollectable(reg);
  }
  Team slow, quick;
  auto ask = [&](int port, const std::string& uri, const std::string& more, bool must) {
    GetOpt g;
    g.port = port; g.extra = more;
    http::Resp r = get(uri, g);
    if (must && (!r.complete() || r.status != 200)) fail("a scrape was not answered although nothing failed:" + show(r));
  };
  const std::string cred = "Authorization: Basic c3R1Y2s6eA==\r\n", good = "Authorization: Basic YTpi\r\n";   // stuck:x, a:b
  std::future<int> fut;
  switch (what) {
    case S_COLLECT2: slow.go([&]() { ask(PORT, uris[0], "", false); }); // fall through
    case S_COLLECT: slow.go([&]() { ask(PORT, uris[0], "", false); }); break;
    case S_AUTH: slow.go([&]() { ask(PORT, "/auth1", cred, false); }); break;
    case S_PUSH: case S_PEER: slow.go([&]() { API; g1->Push(); }); break;
    case S_APEER: slow.go([&]() { API; fut = g1->AsyncPush(); fut.get(); }); break;
    case S_REMOVE:
      slow.go([&]() { ask(PORT, uris[0], "", false); });
      slow.go([&]() { while (!gate.in) dsim::sleep_ns(1000000); API; a->RemoveCollectable(stuck, uris[0]); });
      break;
    case S_READER:
      slow.go([&]() {
        int fd = http::dial(PORT, 300000000000ull);
        if (fd < 0) return;
        http::send_all(fd, request(uris[0], GetOpt()));
        gate.pass();
        close(fd);
      });
      break;
    case S_DIRECT: slow.go([&]() { API; auto v = stuck->Collect(); (void)v; }); break;
  }
  for (int k = 0; k < 20000 && !gate.in; k++) dsim::sleep_ns(1000000);
  if (!gate.in) fail("nothing reached the stalled callback within 20 s");
  dsim::sleep_ns(10000000);
  std::vector<int> at(nt, -1);
  int nport = 10001;
  for (int th = 0; th < nt; th++)
    quick.go([&, th]() {
      int n = 0;
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        at[th] = o.k;
        auto& x = extra[(size_t)o.a % 8];
        switch (o.k) {
          case GET_B: ask(PORT_B, uris[0], "", true); break;
          case GET_OTHER: ask(PORT, uris[1], "", true); break;
          case REG_B: { API; b->RegisterCollectable(x, uris[o.b % NURI]); break; }
          case REM_B: { API; b->RemoveCollectable(x, uris[o.b % NURI]); break; }
          case REG_A_OTHER: if (what != S_REMOVE) { API; a->RegisterCollectable(x, uris[1 + o.b % 2]); } break;
          case PUSH_2: { int s; { API; s = o.b & 1 ? g2->Push() : g2->PushAdd(); } if (s != 200) fail(fmt("a push returned %d", s)); break; }
          case APUSH_2: { int s; { API; s = (o.b & 1 ? g2->AsyncPush() : g2->AsyncPushAdd()).get(); } if (s != 200) fail(fmt("a push returned %d", s)); break; }
          case DEL_2: { API; if (o.b & 1) g2->Delete(); else g2->DeleteForInstance(); break; }
          case HDR_2: { API; g2->AddHttpHeader("X-A: " + std::to_string(o.b)); break; }
          case REG_2: { API; g2->RegisterCollectable(x); break; }
          case UPDATE: { API; c.Increment(); hi.Observe(1); su.Observe(2); break; }
          case REGISTRY: { API; auto& f = BuildGauge().Name("r" + std::to_string(th) + "_" + std::to_string(n)).Register(*reg); f.Add({{"x", "y"}}).Set(1); if (o.b & 1) reg->Remove(f); break; }
          case DIRECT: { API; auto v = reg->Collect(); TextSerializer t; auto s = t.Serialize(v); (void)s; break; }
          case NEWGW: { API; Gateway* g = new Gateway("127.0.0.1", "9093", "other"); g->RegisterCollectable(x); delete g; break; }
          case NEWEX: {
            int port = nport++;
            API;
            Exposer* e = new Exposer("127.0.0.1:" + std::to_string(port), 1);
            e->RegisterCollectable(x);
            delete e;
            break;
          }
          case AUTH_B: { API; b->RegisterAuth([](const std::string&, const std::string&) { return true; }, "r", "/auth3"); break; }
          case REG_LATE: {
            API;
            b->RegisterCollectable(stuck, "/late");
            Gateway* g = new Gateway("127.0.0.1", "9093", "other");
            g->RegisterCollectable(stuck);
            if (o.b & 1) b->RemoveCollectable(stuck, "/late");
            delete g;
            break;
          }
          case GET_AUTHED: ask(PORT, "/auth2", good, true); break;
        }
        n++;
      }
      at[th] = -1;
    });
  if (!quick.join_until(dsim::now() + 20000000000ull)) {
    char buf[2048];
    dsim::thread_block_report(buf, sizeof buf);
    std::string who;
    for (int k : at) if (k >= 0) who += (who.empty() ? "" : ", ") + std::string(opname[k]);
    fail("while a callback of something else does not return, these do not end: " + who + " | " + buf);
  }
  quick.join();
  bool engaged = true;
  for (int id : slow.ids) if (dsim::thread_done(id)) engaged = false;
  if (engaged && gate.closed) dsim::probe(what == S_READER ? 2 : 1);
  gate.closed = false;
  slow.join();
  { API; fut = std::future<int>(); delete g1; delete g2; delete a; delete b; }
  p1.end(); p2.end();
  { API; stuck.reset(); for (auto& x : extra) x.reset(); reg.reset(); }
  check_gone("after the exposers were destroyed");
}
void gen(Plan& p, Rng& r) {
  p.cfg["stuck"] = (i64)r.n(NS);
  p.cfg["workers"] = 3 + (i64)r.n(2);
  std::vector<int> kinds;
  for (int k = 0; k < NK; k++) if (r.pct(50)) kinds.push_back(k);
  if (kinds.empty()) kinds = {GET_OTHER};
  int nt = 1 + (int)r.n(3);
  for (int t = 0; t < nt; t++) { int n = 1 + (int)r.n(4); for (int i = 0; i < n; i++) p.add(t, r.of(kinds), (i64)r.n(8), (i64)r.n(6)); }
  p.cfg["max_sync"] = 3000000;
  p.cfg["net_window"] = p.get("stuck") == S_READER ? 100 : 65536;
}
const char* const probes[] = {"-", "others_finished_while_one_was_stuck", "others_finished_while_a_client_did_not_read", nullptr};
Reg r_({"isolate_net", gen, run, probes, "Exposer, Endpoint, handlers, metrics collector, Gateway, CurlWrapper, serializer, core (instrumented C++), civetweb 1.16 and libcurl 8.5 (unmodified shared libraries)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, HTTP peers, collectables"});
}  // namespace
