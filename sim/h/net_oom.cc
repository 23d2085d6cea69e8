// C09: an allocation that fails while something is registered with an exposer
// or a gateway.
#include "peer.h"
#include <new>
#include <prometheus/collectable.h>
#include <prometheus/gateway.h>
using namespace pull;

namespace {
enum K { REG, REM, AUTH, CHECK, GREG, GHDR, GPUSH, MAKE_EX, MAKE_GW, DROP, GET, PAUSE };
enum { PER = 3 };
struct Probe : Collectable {
  std::string name;
  mutable int calls = 0;          // every collection shows another family: a text must not repeat one
  explicit Probe(std::string n) : name(std::move(n)) {}
  std::vector<MetricFamily> Collect() const override {
    Outside o;
    MetricFamily f;
    f.name = name + "_c" + std::to_string(calls++); f.type = MetricType::Gauge;
    f.metric.resize(1);
    return std::vector<MetricFamily>(1, f);
  }
};
struct Try { int rc; bool fired; };
template <class F>
Try attempt(i64 n, F f) {
  Try t{0, false};
  {
    API;
    dsim::arm_alloc(n);
    try { f(); }
    catch (const std::bad_alloc&) { t.rc = 1; }
    catch (const std::exception&) { t.rc = 2; }
    t.fired = dsim::alloc_fired();
    dsim::arm_alloc(-1);
  }
  if (t.fired) dsim::probe(1);
  return t;
}
struct Sent { std::string head, body; };

void run(const Plan& p) {
  const int nt = p.threads();
  Exposer* ex = start(p);
  Peer peer(9091);
  std::vector<std::vector<Sent>> sent(nt);      // requests by thread: the job of its gateway says which
  peer.on = [&](const std::string& head, const std::string& body) {
    size_t a = head.find("/job/t");
    if (a == std::string::npos) fail("request without job: " + head);
    sent[(size_t)atoi(head.c_str() + a + 6)].push_back({head, body});
  };
  struct Mine {
    std::shared_ptr<Probe> c[PER];
    std::weak_ptr<Collectable> weak[PER];
    int n[PER][NURI] = {};                // how often registered
    bool gone[PER] = {};
    int cb = -1, ncb = 0;                 // callback in force at the own protected URI
    bool auth_uri = false;
    std::vector<std::pair<int, int>> g;   // registered with the gateway: collectable, label
    std::vector<std::string> h;
    Gateway* gw;
  };
  std::vector<Mine> mine(nt);
  for (int i = 0; i < nt; i++) {
    for (int k = 0; k < PER; k++) { API; mine[i].c[k] = std::make_shared<Probe>("p" + std::to_string(i) + "_" + std::to_string(k)); mine[i].weak[k] = mine[i].c[k]; }
    API;
    mine[i].gw = new Gateway("127.0.0.1", "9091", "t" + std::to_string(i));
  }
  volatile bool uri_used[NURI] = {};
  auto fetch = [&](const std::string& uri, const std::string& extra, Text& t, int& status) {
    GetOpt g;
    g.extra = extra;
    http::Resp r = get(uri, g);
    if (!r.complete() && !(r.head && (r.status == 404 || r.status == 401))) fail("a scrape was not answered:" + show(r));
    status = r.status;
    if (status != 200) return;
    std::string text, e = examine(r, g, text);
    if (e.empty()) e = parse(text, t);
    if (!e.empty()) fail(e + ":" + show(r));
  };
  auto check = [&](int i) {
    Mine& me = mine[i];
    const std::string id = "p" + std::to_string(i) + "_";
    for (int u = 0; u < NURI; u++) {
      Text t;
      int status;
      const bool used = uri_used[u];
      fetch(uris[u], "", t, status);
      if (status != 200 && status != 404) fail(fmt("status %d", status));
      if (status == 404 && used) fail(std::string("no scrape target at ") + uris[u]);
      for (int k = 0; k < PER; k++) {
        int want = me.gone[k] ? 0 : me.n[k][u], got = 0;
        for (auto& f : t.fams) if (f.name.compare(0, id.size() + 3, id + std::to_string(k) + "_c") == 0) got++;
        if (got != want) fail(fmt("a scrape of %s shows %s%d %d times after %d successful registrations (calls that failed for want of memory left something behind or took something away)", uris[u], id.c_str(), k, got, want));
      }
    }
    // the own protected URI, where only the callback registered last lets anybody in
    for (int cb = 0; cb < me.ncb; cb++) {
      static const char* const cred[] = {"MDp4", "MTp4", "Mjp4", "Mzp4", "NDp4", "NTp4", "Njp4", "Nzp4", "ODp4", "OTp4"};   // <cb>:x
      Text t;
      int status;
      fetch("/auth" + std::to_string(i), std::string("Authorization: Basic ") + cred[cb] + "\r\n", t, status);
      if (me.cb >= 0) { if (status != (cb == me.cb ? 200 : 401)) fail(fmt("status %d for the user of callback %d while callback %d is registered", status, cb, me.cb)); }
      else if (status == 401) fail("a URI is protected although RegisterAuth never succeeded");
    }
    dsim::probe(2);
  };
  auto push = [&](int i) {
    Mine& me = mine[i];
    sent[i].clear();
    int r;
    { API; r = me.gw->Push(); }
    if (r != 200) fail(fmt("a push returned %d", r));
    std::vector<std::pair<int, int>> live;
    for (auto& x : me.g) if (!me.gone[x.first]) live.push_back(x);
    if (sent[i].size() != live.size()) fail(fmt("a push sent %zu requests for %zu registered collectables", sent[i].size(), live.size()));
    for (size_t k = 0; k < live.size(); k++) {
      Sent& s = sent[i][k];
      std::string id = "p" + std::to_string(i) + "_" + std::to_string(live[k].first);
      if (s.body.find("# TYPE " + id + "_c") == std::string::npos) fail("a push sent the wrong collectable: " + s.body + " instead of " + id);
      if (s.body.find("# TYPE ") != 0 || s.body.find("# TYPE ", 1) != std::string::npos) fail("a push sent more than the collectable: " + s.body);
      std::string path = "POST /metrics/job/t" + std::to_string(i) + (live[k].second ? "/label/value_number_" + std::to_string(live[k].second) : "") + " HTTP";
      if (s.head.compare(0, path.size(), path)) fail("a push went to " + s.head.substr(0, s.head.find('\r')) + " instead of " + path);
      for (auto& h : me.h) if (s.head.find("\r\n" + h + "\r\n") == std::string::npos) fail("a request lacks the header " + h);
      size_t n = 0;
      for (size_t a = s.head.find("\r\nX-"); a != std::string::npos; a = s.head.find("\r\nX-", a + 1)) n++;
      if (n != me.h.size()) fail("a request carries a header whose addition failed: " + s.head);
    }
    dsim::probe(3);
  };
  int nport = 20000;
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      Mine& me = mine[th];
      int serial = 0;
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        const int k = (int)(o.a % PER), u = (int)(o.b % NURI);
        // fails at the c-th allocation; then again, with memory, or left alone
        auto go = [&](auto f) {
          if (o.c) {
            Try x = attempt(o.c, f);
            if (!x.fired && x.rc) fail(fmt("a call failed although no allocation did (%d)", x.rc));
            if (x.fired && x.rc == 2) fail("a failed allocation is reported as something else");
            if (!x.rc) return true;
            if (o.x < 0) { dsim::probe(4); return false; }
          }
          if (attempt(-1, f).rc) fail("a call failed although no allocation did");
          return true;
        };
        switch (o.k) {
          case REG: {
            if (me.n[k][u] >= 3) break;
            if (go([&]() { ex->RegisterCollectable(me.weak[k], uris[u]); })) { me.n[k][u]++; uri_used[u] = true; }
            break;
          }
          case REM: if (!me.gone[k] && go([&]() { ex->RemoveCollectable(me.weak[k], uris[u]); })) { me.n[k][u] = 0; uri_used[u] = true; } break;
          case DROP: { if (me.gone[k]) break; API; me.c[k].reset(); me.gone[k] = true; break; }
          case AUTH: {
            if (me.ncb >= 10) break;
            const int cb = me.ncb++;
            char me_user = (char)('0' + cb);
            // (a callback that does not fit into std::function itself)
            std::string pad = "a text that is too long for the small string buffer";
            if (go([&]() { ex->RegisterAuth([me_user, pad](const std::string& user, const std::string&) { return pad.size() && user.size() == 1 && user[0] == me_user; }, "a realm that is too long for the small string buffer", "/auth" + std::to_string(th)); })) me.cb = cb;
            break;
          }
          case CHECK: check(th); break;
          case GREG: {
            int l = o.b ? (int)o.b : 0;
            Labels ls;
            if (l) ls["label"] = "value_number_" + std::to_string(l);
            if (go([&]() { me.gw->RegisterCollectable(me.weak[k], l ? &ls : nullptr); })) me.g.push_back({k, l});
            break;
          }
          case GHDR: {
            std::string h = "X-" + std::to_string(serial++) + ": a value that is too long for the small string buffer";
            bool ok = false;
            if (go([&]() { ok = me.gw->AddHttpHeader(h); })) { if (!ok) fail("adding a header failed"); me.h.push_back(h); }
            break;
          }
          case GPUSH: push(th); break;
          case MAKE_EX: {
            const int port = nport++;
            Exposer* e = nullptr;
            Try x = attempt(o.c, [&]() { e = new Exposer("127.0.0.1:" + std::to_string(port), 1); });
            if (x.rc && !x.fired) fail("an exposer cannot be constructed although nothing failed");
            if (e) { attempt(o.c, [&]() { e->RegisterCollectable(me.weak[k], "/some/uri/that/is/long"); }); API; delete e; }
            if (dsim::net_port_bound(port)) fail("the port of an exposer whose construction failed stays bound");
            break;
          }
          case MAKE_GW: {
            Gateway* g = nullptr;
            const Labels ls{{"label", "a value that is too long for the small string buffer"}};
            Try x = attempt(o.c, [&]() { g = new Gateway("127.0.0.1", "9999", "a job that is too long for the small string buffer", ls, "user", "password"); });
            if (x.rc && !x.fired) fail("a gateway cannot be constructed although nothing failed");
            { API; delete g; }
            break;
          }
          case GET: { Text tx; int st; fetch(uris[u], "", tx, st); break; }
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
        }
      }
      check(th);
      push(th);
    });
  t.join();
  { API; for (auto& m : mine) { delete m.gw; for (auto& c : m.c) c.reset(); for (auto& x : m.weak) x.reset(); } delete ex; }
  peer.end();
  check_gone("after the exposer was destroyed");
  check_leaks("every object was destroyed");
}
void gen(Plan& p, Rng& r) {
  p.cfg["workers"] = r.in(1, 3);
  int nt = 1 + (int)r.n(3);
  std::vector<int> kinds;
  for (int k = 0; k <= PAUSE; k++) if (r.pct(50)) kinds.push_back(k);
  if (kinds.empty()) kinds = {REG};
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.n(10);
    for (int i = 0; i < n; i++) {
      int k = r.of(kinds);
      p.add(t, k, k == PAUSE ? (i64)r.n(1000000) : (i64)r.n(PER), k == GREG ? (i64)r.n(3) : (i64)r.n(NURI), r.pct(30) ? 0 : r.in(1, r.of<i64>({4, 12, 60})), r.pct(50) ? -1 : 1);
    }
  }
  p.cfg["max_sync"] = 3000000;
}
const char* const probes[] = {"-", "allocation_failed", "exposer_checked", "gateway_checked", "failed_call_not_repeated", nullptr};
Reg r_({"oom_net", gen, run, probes, "Exposer, Endpoint, handlers, Gateway, CurlWrapper, label encoder, core (instrumented C++), civetweb 1.16 and libcurl 8.5 (unmodified shared libraries)",
        "allocator (the n-th allocation of a call fails), TCP, clocks, scheduler, threads, mutexes, HTTP peers, collectables"});
}  // namespace
