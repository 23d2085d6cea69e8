// C25: an exposer and a gateway that run for long keep nothing of what is over.
#include "peer.h"
#include "steady.h"
#include <prometheus/gateway.h>
using namespace pull;

namespace {
enum K { SCRAPE, COME_AND_GO, COME_AND_DIE, AUTH, PUSH, APUSH, DEL, GREG, NEWEX, NEWGW, BADREQ, PAUSE, REMOVE_OTHER, REPLACE, NK };
struct Fail : std::exception {};

void run(const Plan& p) {
  const int nt = p.threads(), rounds = (int)p.get("rounds");
  const std::string pad(40, 'x');
  dsim::no_faults(true);
  Exposer* ex = start(p);
  Gateway* gw;
  std::shared_ptr<Registry> reg;
  Peer peer(9091);
  {
    API;
    reg = std::make_shared<Registry>();
    BuildGauge().Name("stays").Register(*reg).Add({{"a", pad}}).Set(1);
    gw = new Gateway("127.0.0.1", "9091", "job", {{"instance", pad}}, "user", "secret", std::chrono::seconds(30));
    for (int u = 0; u < NURI; u++) ex->RegisterCollectable(reg, uris[u]);
    gw->RegisterCollectable(reg);
  }
  dsim::no_faults(false);
  steady::Account acc(rounds, 4096);
  int port = 20000;
  std::vector<std::shared_ptr<Registry>> slot((size_t)nt);
  auto accept_all = [pad](const std::string& u, const std::string&) { Outside o; return u.size() + pad.size() > 0; };
  // something new on the same paths, so that what has expired there is noticed
  auto sweep = [&]() {
    dsim::no_faults(true);
    {
      API;
      auto x = std::make_shared<Registry>();
      Labels l{{"k", "sweep"}};
      for (int u = 0; u < NURI; u++) { ex->RegisterCollectable(x, uris[u]); ex->RemoveCollectable(x, uris[u]); }
      gw->RegisterCollectable(x, &l);
    }
    dsim::no_faults(false);
  };
  for (int round = 0; round < rounds; round++) {
    Team t;
    for (int i = 0; i < nt; i++)
      t.go([&, i]() {
        Kept kept;
        for (auto& o : p.ops) {
          if (o.th != i) continue;
          const std::string& uri = uris[o.a % NURI];
          switch (o.k) {
            case SCRAPE: {
              GetOpt g;
              g.gzip = o.b & 1; g.keep = o.b & 2;
              g.extra = "Authorization: Basic dXNlcjpzZWNyZXQ=\r\n";
              if (o.b & 4) g.chunk = 200;
              http::Resp r = get(uri, g, &kept);
              if (r.complete() && r.status == 200) dsim::probe(1); else dsim::probe(2);
              break;
            }
            case BADREQ: {
              int fd = http::dial(PORT, 10000000000ull);
              if (fd < 0) break;
              static const char* const bad[] = {"GET ", "GET /metrics HTTP/1.1\r\nHost: x\r\nAuthorization: Basic !!!\r\n\r\n", "\r\n\r\n\r\n", "POST /nowhere HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nabc", "GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n"};
              http::send_all(fd, bad[o.b % 5]);
              if (o.b & 1) dsim::net_reset_conn(fd); else close(fd);
              break;
            }
            case COME_AND_GO: case COME_AND_DIE: {
              API;
              auto x = std::make_shared<Registry>();
              BuildGauge().Name("comes").Register(*x).Add({{"a", pad}});
              ex->RegisterCollectable(x, uri);
              if (o.b & 1) dsim::sleep_ns(3000000);
              if (o.k == COME_AND_GO) ex->RemoveCollectable(x, uri);
              break;
            }
            case REPLACE: {      // there is always one, and it is the youngest
              API;
              auto x = std::make_shared<Registry>();
              BuildGauge().Name("slot").Register(*x).Add({{"a", pad}});
              if (o.b & 1) ex->RemoveCollectable(slot[i], uri);
              if (o.b & 2) gw->RegisterCollectable(x);
              ex->RegisterCollectable(x, uri);
              slot[i] = x;
              break;
            }
            case REMOVE_OTHER: { API; auto x = std::make_shared<Registry>(); ex->RemoveCollectable(x, uri); break; }
            case AUTH: { std::string realm = pad + pad; API; ex->RegisterAuth(accept_all, realm, uri); break; }
            case PUSH: { API; int s = o.b & 1 ? gw->Push() : gw->PushAdd(); if (s == 200) dsim::probe(3); break; }
            case APUSH: {
              try {
                API;
                auto f = o.b & 1 ? gw->AsyncPush() : o.b & 2 ? gw->AsyncPushAdd() : gw->AsyncDelete();
                if (o.b & 4) f.get();
              } catch (const std::exception&) { if (!dsim::fault_count(dsim::F_THREAD)) throw; dsim::probe(4); }
              break;
            }
            case DEL: { API; if (o.b & 1) gw->Delete(); else gw->DeleteForInstance(); break; }
            case GREG: {
              Labels l{{"k", pad}};
              API;
              auto x = std::make_shared<Registry>();
              BuildGauge().Name("comes").Register(*x).Add({{"a", pad}});
              gw->RegisterCollectable(x, &l);
              if (o.b & 1) gw->Push();
              break;
            }
            case NEWEX: {
              std::string at = "127.0.0.1:" + std::to_string(port++);
              dsim::no_faults(true);      // (civetweb leaves threads behind when it cannot start one)
              {
                API;
                Exposer e(at, 1);
                e.RegisterCollectable(reg);
                e.RegisterAuth(accept_all, pad);
              }
              dsim::no_faults(false);
              break;
            }
            case NEWGW: {
              API;
              try {
                int n = 0;
                Gateway g("127.0.0.1:9093", [&](CURL*) { if (++n == 1 && o.b & 1) throw Fail(); }, "job");
                g.AddHttpHeader("X-A: " + pad);
                g.RegisterCollectable(reg);
                if (o.b & 2) g.Delete();
              } catch (const Fail&) {} catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { if (!dsim::fault_count(dsim::F_CURL_INIT)) throw; }
              break;
            }
            case PAUSE: dsim::sleep_ns((u64)o.a); break;
          }
        }
      });
    t.join();
    dsim::sleep_ns(100000000000ull);      // requests that are still being handled
    sweep();
    acc.round(round);
  }
  acc.judge();
  dsim::clear_faults();
  { API; delete gw; delete ex; reg.reset(); slot.clear(); }
  peer.end();
  check_gone("after the exposer was destroyed");
  check_leaks("everything was destroyed");
}
void gen(Plan& p, Rng& r) {
  int nt = 1 + (int)r.n(3);
  p.cfg["workers"] = r.in(1, 3);
  p.cfg["keep"] = r.pct(40);
  p.cfg["rounds"] = 8 + (i64)r.n(3);
  std::vector<int> kinds;
  for (int k = 0; k < NK; k++) if (r.pct(50)) kinds.push_back(k);
  if (kinds.empty()) kinds = {SCRAPE, COME_AND_DIE};
  int total = nt + (int)r.n(8), spawning = 0;
  for (int i = 0; i < total; i++) {
    int k = r.of(kinds), t = i < nt ? i : (int)r.n(nt);
    // (the simulator has 250 threads for a run)
    if ((k == NEWEX || k == APUSH || k == NEWGW) && ++spawning > 4) k = COME_AND_GO;
    p.add(t, k, k == PAUSE ? r.in(1, 700000000) : (i64)r.n(NURI), (i64)r.n(64));
  }
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_SEND, 200000, 40);
  if (r.pct(60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(25)) set_fault(p, dsim::F_NET_RST, 20000, 20);
  if (r.pct(20)) set_fault(p, dsim::F_THREAD, 100000, 20);
  if (r.pct(20)) set_fault(p, dsim::F_CURL_INIT, 100000, 20);
  if (r.pct(20)) set_fault(p, dsim::F_ZLIB, 200000, 20);
  if (r.pct(20)) { set_fault(p, dsim::F_STALL, 2000, 5); p.cfg["stall_max"] = 1000000000; }
  p.cfg["max_sync"] = 6000000;
}
const char* const probes[] = {"-", "scraped", "scrape_failed", "pushed", "call_failed", nullptr};
Reg r_({"steady_net", gen, run, probes, "Exposer, Endpoint, handlers, metrics collector, Gateway, CurlWrapper, serializer, core (instrumented C++), civetweb 1.16 and libcurl 8.5 (unmodified shared libraries)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, HTTP peers"});
}  // namespace
