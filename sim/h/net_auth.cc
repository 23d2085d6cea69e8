// C14: authentication, while callbacks are replaced and the exposer goes away.
#include "pull.h"
#include <prometheus/collectable.h>
using namespace pull;

namespace {
enum K { GET, AUTH, PAUSE, DESTROY };
struct Call { int ver; u64 enter, exit; std::string user, pass; bool ok; };
struct Shared {
  std::vector<Call> calls;
  int copies = 0;
  u64 slow = 0;
};
const u64 MAGIC = 0x0123456789abcdefull;
struct Cred { std::string u, p; };
enum { NCRED = 15 };
const std::vector<Cred>& creds() {
  static std::vector<Cred>* v;
  if (!v) v = new std::vector<Cred>{{"alice", "secret"}, {"alice", "wrong"}, {"bob", "x:y:z"}, {"", ""}, {"", ":"}, {"user", std::string("pa\0ss", 5)}, {"\xff\xfe", "\x80\x01"},
                                    {std::string(300, 'u'), std::string(1000, 'p')}, {"alice", "secret\n"}, {"Alice", "secret"}, {"alice", "secre"}, {"alice", ""}, {"alice ", "secret"}, {" alice", "secret "}, {"~~>", "?>>?>>~~"}};
  return *v;
}
std::string b64(const std::string& s) {
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    u32 v = (u32)(unsigned char)s[i] << 16;
    if (i + 1 < s.size()) v |= (u32)(unsigned char)s[i + 1] << 8;
    if (i + 2 < s.size()) v |= (unsigned char)s[i + 2];
    o += t[v >> 18 & 63]; o += t[v >> 12 & 63];
    o += i + 1 < s.size() ? t[v >> 6 & 63] : '=';
    o += i + 2 < s.size() ? t[v & 63] : '=';
  }
  return o;
}
// the callback: every copy watches its own life
struct Check {
  Shared* sh; int uri, ver; u64 accept; u64 magic; mutable int running;
  Check(Shared* s, int u, int v, u64 a) : sh(s), uri(u), ver(v), accept(a), magic(MAGIC), running(0) { Outside q; sh->copies++; }
  Check(const Check& o) : sh(o.sh), uri(o.uri), ver(o.ver), accept(o.accept), magic(MAGIC), running(0) { Outside q; sh->copies++; }
  ~Check() {
    Outside q;
    if (magic != MAGIC) fail("an authentication callback was destroyed twice");
    if (running) fail(fmt("authentication callback %d of %s was destroyed while it was deciding about a request", ver, uris[uri]));
    magic = 0; sh->copies--;
  }
  bool operator()(const std::string& user, const std::string& pass) const {
    Outside o;
    if (magic != MAGIC) fail("a destroyed authentication callback was called");
    running++;
    size_t k = sh->calls.size();
    bool ok = false;
    for (size_t i = 0; i < creds().size(); i++) if (creds()[i].u == user && creds()[i].p == pass) ok = accept >> i & 1;
    sh->calls.push_back(Call{ver, dsim::ev(), ~0ull, user, pass, ok});
    if (sh->slow) dsim::sleep_ns(sh->slow); else dsim::yield_point();
    if (magic != MAGIC) fail("an authentication callback was destroyed while it was deciding about a request");
    sh->calls[k].exit = dsim::ev();
    running--;
    return ok;
  }
};
struct Ver { u64 inv, ret, accept; std::string realm; };
struct Req { http::Resp r; int uri, cred, form, way; bool well; };
// Other ways to ask for (nearly) the same: whether there is an answer is up to
// the HTTP server, but what it gives out is the protected content.
enum { PLAIN, BELOW, QUERY, SLASH, ENCODED, DOUBLED, HEAD, POST, ABSOLUTE_URI, LONGER, DOTS, UPPER, OPTIONS, NWAY };
std::string spelled(const std::string& u, int way, GetOpt& o) {
  char hex[8];
  switch (way) {
    case BELOW: return u + "/sub";
    case QUERY: return u + "?name[]=x&y=/z";
    case SLASH: return u + "/";
    case ENCODED: snprintf(hex, sizeof hex, "%%%02x", u.size() > 1 ? u[1] : 'x'); return "/" + std::string(hex) + (u.size() > 1 ? u.substr(2) : "");
    case DOUBLED: return "/" + u;
    case HEAD: o.method = "HEAD"; return u;
    case POST: o.method = "POST"; o.extra += "Content-Length: 0\r\n"; return u;
    case ABSOLUTE_URI: return "http://localhost:9999" + u;
    case LONGER: return u + "x";
    case DOTS: return "/x/.." + u + "/./";
    case UPPER: { std::string v = u; for (char& c : v) c = (char)toupper(c); return v; }
    case OPTIONS: o.method = "OPTIONS"; return u;
  }
  return u;
}

void run(const Plan& p) {
  creds();
  const char* uris[NURI] = {p.get("root") ? "/" : pull::uris[0], pull::uris[1], pull::uris[2]};
  Exposer* ex = start(p);
  const int nt = p.threads();
  std::vector<Shared> sh(NURI);
  std::vector<std::vector<Ver>> vers(NURI);
  std::shared_ptr<Registry> reg;
  {
    API;
    reg = std::make_shared<Registry>();
    BuildGauge().Name("secret_gauge").Register(*reg).Add({}).Set(42);
    for (int u = 0; u < NURI; u++) if (p.get("pre") >> u & 1) ex->RegisterCollectable(reg, uris[u]);
  }
  for (int u = 0; u < NURI; u++) { sh[u].slow = (u64)p.get(("slow" + std::to_string(u)).c_str()); sh[u].calls.reserve(256); vers[u].reserve(32); }
  std::vector<std::vector<Req>> reqs(nt + 1);
  u64 gone_inv = ~0ull, gone_ret = ~0ull;
  auto ask = [&](int u, int c, int form, int th, int way = PLAIN) {
    Req q; q.way = way; q.uri = u; q.cred = c; q.form = form; q.well = false;
    std::string plain = creds()[c].u + ":" + creds()[c].p, e = b64(plain), h;
    switch (form) {
      case 0: h = "Basic " + e; q.well = true; break;
      case 1: break;
      case 2: h = "Bearer " + e; break;
      case 3: h = "Basic"; break;
      case 4: e[e.size() / 2] = '!'; h = "Basic " + e; break;
      case 5: h = "Basic " + e.substr(0, e.size() - 1); break;
      case 6: h = "Basic " + b64(creds()[c].u); break;        // no colon
      case 7: { std::string x = plain; while (x.size() % 3 != 1) x += "x"; e = b64(x); e[e.size() - 1] = 'x'; h = "Basic " + e; break; }   // data after padding
      case 8: h = "Basic ===="; break;
      case 9: h = "Digest username=\"" + std::string("alice") + "\""; break;
      case 10: h = "Basic Basic " + e; break;
      case 11: h = "Basic " + e + "===="; break;
      case 12: h = e; break;
      case 13: h = "Basic:" + e; break;
      case 14: { bool clean = true; for (char x : plain) if (x < 32 || x > 126) clean = false; h = "Basic " + (clean ? plain : e.substr(1)); break; }   // not encoded at all
      // another alphabet, or with blanks: not well-formed
      case 15: { std::string x = e; for (char& v : x) v = v == '+' ? '-' : v == '/' ? '_' : v; q.well = x == e; h = "Basic " + x; break; }
      case 16: e.insert((u64)c * 4 % (e.size() + 1) / 4 * 4, "    "); h = "Basic " + e; if (e.size() && e.back() == ' ') h += b64("x"); break;
    }
    if (form == 6 && creds()[c].u.find(':') != std::string::npos) q.form = 1, h = "";
    GetOpt o;
    if (h.size()) o.extra = "Authorization: " + h + "\r\n";
    q.r = get(spelled(uris[u], way, o), o);
    reqs[th].push_back(std::move(q));
  };
  Team t;
  for (int th = 0; th < nt; th++)
    t.go([&, th]() {
      for (auto& o : p.ops) {
        if (o.th != th) continue;
        switch (o.k) {
          case GET: ask((int)o.a, (int)o.b, (int)o.c, th, (int)o.x); break;
          case AUTH: {      // one controlling thread per URI; not after the destruction
            int u = (int)o.a, k = (int)vers[u].size();
            std::string realm = "realm " + std::to_string(u) + "." + std::to_string(k);
            switch (p.get("realms")) {
              case 1: realm = "the realm"; break;
              case 2: realm = k % 2 ? "" : "realm"; break;
              case 3: realm = std::string(p.get("longrealm") ? 5000 : 120, (char)('a' + k % 3)); break;
              case 4: realm = "realm " + std::to_string(k / 2); break;
            }
            vers[u].push_back(Ver{dsim::ev(), ~0ull, (u64)o.b, realm});
            { API; ex->RegisterAuth(Check(&sh[u], u, k, (u64)o.b), realm, uris[u]); }
            vers[u][k].ret = dsim::ev();
            break;
          }
          case PAUSE: dsim::sleep_ns((u64)o.a); break;
          case DESTROY: {
            gone_inv = dsim::ev();
            { API; delete ex; }
            gone_ret = dsim::ev();
            ex = nullptr;
            check_gone("after the exposer was destroyed");
            break;
          }
        }
      }
    });
  t.join();
  if (ex) {
    dsim::clear_faults();
    dsim::sleep_ns(100000000000ull);
    for (int u = 0; u < NURI; u++) if (p.get("pre") >> u & 1 || vers[u].size()) {
      ask(u, 0, 0, nt);
      ask(u, 1, 0, nt);
      ask(u, 0, 1, nt);
      for (size_t i = reqs[nt].size() - 3; i < reqs[nt].size(); i++) if (!reqs[nt][i].r.complete()) fail("a request after all faults ceased was not answered:" + show(reqs[nt][i].r));
    }
    gone_inv = dsim::ev();
    { API; delete ex; }
    gone_ret = dsim::ev();
    check_gone("after the exposer was destroyed");
  }
  for (int u = 0; u < NURI; u++) if (sh[u].copies) fail("an authentication callback outlives the exposer");
  for (auto& v : reqs) for (auto& q : v) {
    const http::Resp& r = q.r;
    std::string what = fmt(" (request to %s, credentials %d, header form %d%s)", uris[q.uri], q.cred, q.form, q.way ? fmt(", spelled in way %d", q.way).c_str() : "") + show(r);
    const bool secret = r.body.find("secret_gauge") != std::string::npos;
    // (what becomes of a HEAD or POST that is admitted is the server's business)
    const bool asked = q.way == QUERY || ((q.way == HEAD || q.way == POST) && r.head && r.status != 401);
    if (q.way && !secret && !asked) continue;
    if (!r.bad.empty()) fail("malformed response: " + r.bad + what);
    bool ending = r.ret > gone_inv;
    if (!r.head) {
      if (!excused(r) && !ending) fail("a request was not answered although nothing failed" + what);
      continue;
    }
    std::vector<Ver>& vs = vers[q.uri];
    size_t a = 0, b = 0;       // versions a..b-1 may decide; none at all if `open`
    bool open = true;
    for (size_t k = 0; k < vs.size(); k++) { if (vs[k].ret < r.inv) { a = k; open = false; } if (vs[k].inv < r.ret) b = k + 1; }
    if (secret && r.status != 200) fail("metrics with a status other than 200" + what);
    if (r.status == 404 && q.way <= QUERY) {
      // nothing there (yet, or any more)
      if ((p.get("pre") >> q.uri & 1 || !open) && !ending) fail("404 for a URI that is served" + what);
      continue;
    }
    if (q.way > QUERY && ending && !secret) continue;
    if (r.status == 200 || (q.way > QUERY && r.status != 401 && !(r.status == 400 && r.again))) {
      dsim::probe(q.way ? 5 : 1);
      bool ok = open;
      if (!ok && q.well) for (auto& c : sh[q.uri].calls)
        if (c.ok && c.ver >= (int)a && c.ver < (int)b && c.user == creds()[q.cred].u && c.pass == creds()[q.cred].p && c.enter > r.inv && c.exit < r.ret) ok = true;
      if (!ok) fail("metrics were given out without the consent of the callback in force" + what);
      if (r.complete() && !asked && r.body.find("secret_gauge 42") == std::string::npos && p.get("pre") >> q.uri & 1) fail("the metrics are missing" + what);
    } else if (r.status == 401) {
      dsim::probe(2);
      if (vs.empty()) fail("401 from a URI that is not protected" + what);
      bool ok = false;
      std::string realm = http::header(r.hs, "www-authenticate");
      for (size_t k = a; k < b; k++) {
        bool rej = !q.well || !(vs[k].accept >> q.cred & 1);
        if (!r.complete() && realm.empty()) { if (rej) ok = true; }
        else if (rej && realm == "Basic realm=\"" + vs[k].realm + "\"") ok = true;
        // one callback decides, its successor writes the answer
        else if (rej) for (size_t m = k; m < b; m++) if (realm == "Basic realm=\"" + vs[m].realm + "\"" && m > k && vs[m].inv < r.ret) ok = true;
      }
      if (!ok) fail("401 from no callback in force, or with a wrong realm: " + realm + what);
      if (r.body.size()) fail("a body with status 401" + what);
      if (!r.complete() && !excused(r) && !ending) fail("an incomplete 401" + what);
    } else if (!(r.status == 400 && r.again)) fail("unexpected status" + what);
    if (!vs.empty() && a + 1 < b) dsim::probe(3);
  }
  // every call is about one request in progress, with exactly its credentials,
  // and made to a callback that may be in force
  for (int u = 0; u < NURI; u++) for (auto& c : sh[u].calls) {
    bool ok = false;
    for (auto& v : reqs) for (auto& q : v)
      if (q.uri == u && q.well && creds()[q.cred].u == c.user && creds()[q.cred].p == c.pass && c.enter > q.r.inv && (c.enter < q.r.ret || excused(q.r) || c.enter > gone_inv)) {
        bool later = false;    // a successor was in force before the request began
        for (size_t k = c.ver + 1; k < vers[u].size(); k++) if (vers[u][k].ret < q.r.inv) later = true;
        if (!later) ok = true;
      }
    if (!ok) fail(fmt("callback %d of %s was called with user '%s' and a password of %zu bytes: no such request, or the callback had been replaced before it", c.ver, uris[u], expo::excerpt(c.user).c_str(), c.pass.size()));
    if (c.enter > gone_ret) fail("a callback was called after the exposer was destroyed");
    if (c.exit == ~0ull || c.exit > gone_ret) fail("a callback was still running after the exposer was destroyed");
    dsim::probe(4);
  }
  { API; reg.reset(); }
  check_leaks("the exposer was destroyed");
}

void gen(Plan& p, Rng& r) {
  p.cfg["workers"] = r.in(1, 4);
  p.cfg["pre"] = (i64)r.n(8);
  for (int u = 0; u < NURI; u++) p.cfg["slow" + std::to_string(u)] = r.of<i64>({0, 0, 0, 1000000, 30000000});
  p.cfg["realms"] = r.pct(40) ? 0 : (i64)r.n(5);
  p.cfg["longrealm"] = r.pct(20);
  int ways = r.pct(30) ? 60 : 0;
  p.cfg["root"] = r.pct(10);
  if (p.cfg["root"]) p.cfg["pre"] &= 1;
  int nu = p.cfg["root"] ? 1 : 1 + (int)r.n(NURI), cl = 1 + (int)r.n(4);
  auto acc = [&]() { i64 a = 0; if (r.pct(80)) a |= 1; for (int i = 1; i < NCRED; i++) if (r.pct(20)) a |= 1 << i; return a; };
  auto pause = [&]() { return (i64)r.n(r.of<u64>({100000, 1000000, 30000000, 100000000})); };
  for (int u = 0; u < nu; u++) {
    int n = 1 + (int)r.n(4);
    for (int k = 0; k < n; k++) {
      if (r.pct(60)) p.add(u, PAUSE, pause());
      p.add(u, AUTH, u, acc());
    }
  }
  for (int c = 0; c < cl; c++) {
    int n = 1 + (int)r.n(6);
    for (int k = 0; k < n; k++) {
      if (r.pct(40)) p.add(nu + c, PAUSE, pause());
      p.add(nu + c, GET, r.pct(85) || p.cfg["root"] ? (i64)r.n(nu) : (i64)r.n(NURI), r.pct(50) ? 0 : (i64)r.n(NCRED), r.pct(60) ? 0 : (i64)r.n(17), r.pct(ways) ? (double)(1 + r.n(NWAY - 1)) : 0);
    }
  }
  // the only controller may also end it all while requests are in flight
  if (nu == 1 && r.pct(50)) { if (r.pct(60)) p.add(0, PAUSE, pause()); p.add(0, DESTROY); }
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_SEND, 200000, 40);
  if (r.pct(30)) set_fault(p, dsim::F_NET_SHORT_RECV, 200000, 40);
  if (r.pct(60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
  if (r.pct(10)) set_fault(p, dsim::F_NET_RST, 20000, 2);
  if (r.pct(30)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 100000000; }
}
const char* const probes[] = {"-", "admitted", "turned_away", "replaced_during_request", "callback_called", "given_out_under_another_spelling", nullptr};
Reg r_({"auth", gen, run, probes, "Exposer, Endpoint, BasicAuthHandler, base64, MetricsHandler (instrumented C++), civetweb 1.16 (unmodified shared library)",
        "TCP, clocks, scheduler, threads, mutexes, allocator, HTTP clients, callbacks"});
}  // namespace
