// A simulated deployment of the push gateway client: the Pushgateway (a server
// with a scripted behaviour per request), collectables, and calls.
#pragma once
#include "../rt/libs.h"
#include "expo.h"
#include "http.h"
#include <curl/curl.h>
#include <fcntl.h>
#include <poll.h>
#include <prometheus/collectable.h>
#include <prometheus/gateway.h>

namespace push {
using namespace h;
using namespace prometheus;
enum { PORT = 9091 };
struct Outside { bool in = dsim::api_depth() > 0; Outside() { if (in) dsim::api_exit(); } ~Outside() { if (in) dsim::api_enter(); } };

// ---- what the server does with one request
enum Act {
  // a complete, valid answer
  KEEP, BODY, CLOSE, HTTP10, CHUNKED, UNTIL_EOF, NO_CONTENT, CONTINUE, DROP_IDLE, REDIRECT, SLOW_READ, PIECES,
  // a complete, valid answer of failure
  ERR4, ERR5, EARLY_ERR,
  // no valid answer
  HANG_UP, RST, PARTIAL, SHORT_BODY, GARBAGE, HALF_HEAD, CUT_CHUNK,
  // only with a timeout
  NEVER, DRIP, SLOW,
  NACT, NGOOD = ERR4
};
struct Req {
  int conn, nth, act, status;
  std::string method, target, proto, body;
  http::Headers hs;
  bool complete = false;        // arrived completely
  bool answered = false;        // a complete valid response was handed to the network
  u64 ev_head = 0, ev_full = 0, ev_ans = ~0ull, ev_done = ~0ull;
  u64 serial = 0;               // 0: no body
  bool valid() const { return act < HANG_UP || act == SLOW; }
};
struct Server {
  const Plan& p;
  const int port;
  int lfd = -1;
  bool stop = false, well = false;     // well: answer everything at once from now on
  std::vector<std::unique_ptr<Req>> reqs;
  Team team;
  int nstatus = 0, nfail = 0;
  struct Conn {
    int fd, cur = -1, nreq = 0, drip = 0;
    std::string in, out;
    size_t off = 0, need = 0;
    bool chunked = false, wait_body = false, close_after = false, rst_after = false, mute = false;
    u64 out_at = 0, read_at = 0;
  };
  std::vector<std::unique_ptr<Conn>> conns;
  Server(const Plan& pl, int prt) : p(pl), port(prt) {}

  void start() {
    lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons((unsigned short)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(lfd, (struct sockaddr*)&a, sizeof a) || listen(lfd, 100)) fail("the simulated server cannot listen");
    team.go([this]() { serve(); });
  }
  // everything has been answered or given up; false: a client connection is still open
  bool finish(u64 deadline) {
    stop = true;
    int fd = http::dial(port, 1000000000ull);    // wakes it up
    bool ok = team.join_until(deadline);
    if (fd >= 0) close(fd);
    return ok;
  }
  void drop(Conn& c, bool rst) {
    if (rst) dsim::net_reset_conn(c.fd); else close(c.fd);
    c.fd = -1;
  }
  void pick(Conn& c, Req& r) {
    Rng g((u64)p.get("beh_seed") * 1000003 + reqs.size());
    bool timed = p.get("timeout") > 0;
    int a;
    if (well) a = KEEP;
    else if (!g.pct((u32)p.get("bad"))) { do a = (int)g.n(NGOOD); while (!(p.get("acts") >> a & 1)); }
    else { do a = ERR4 + (int)g.n(timed ? NACT - ERR4 : NEVER - ERR4); while (!(p.get("acts") >> a & 1)); }
    r.act = a;
    if (r.method == "DELETE" && (a == NO_CONTENT || a == REDIRECT)) r.act = a = KEEP;
    do r.status = 201 + nstatus++ % 99; while (r.status == 204 || r.status == 205);   // told apart from one another
    if (a == NO_CONTENT) r.status = 204;
    if (a == REDIRECT) r.status = 300 + (int)g.n(9);
    if (a == ERR4 || a == EARLY_ERR) { do r.status = 400 + nfail++ % 99; while (r.status == 408 || r.status == 417); }
    if (a == ERR5) r.status = 500 + nfail++ % 99;
    u64 d = (u64)p.get("timeout") * 1000000000ull;
    if (a == SLOW) c.out_at = dsim::now() + d / 2 + g.n(d);
    else c.out_at = p.get("lag") && !well ? dsim::now() + g.n(timed ? std::min<u64>((u64)p.get("lag"), 300000000) : (u64)p.get("lag")) : 0;
  }
  // some answers say more than others
  std::string blurb(const char* t, const Req& r) const {
    size_t n = p.get("chatty") ? (u64)(r.status * 7919) % (r.status % 3 ? 3000 : 60000) : 0;
    return fmt("Content-Length: %zu\r\nContent-Type: text/plain\r\n\r\n%s", strlen(t) + n, t) + std::string(n, 'x');
  }
  void answer(Conn& c, Req& r) {
    std::string s = fmt("HTTP/1.1 %d %s\r\n", r.status, r.status < 300 ? "Fine" : "Other");
    switch ((Act)r.act) {
      case BODY: s += blurb("accepted\n", r); break;
      case CLOSE: s += "Connection: close\r\nContent-Length: 4\r\n\r\nbye\n"; c.close_after = true; break;
      case HTTP10: s = fmt("HTTP/1.0 %d OK\r\n\r\nold", r.status); c.close_after = true; break;
      case CHUNKED: s += "Transfer-Encoding: chunked\r\n\r\n4\r\nabc\n\r\n10\r\n0123456789abcdef\r\n0\r\n\r\n"; break;
      case UNTIL_EOF: s += "Server: x\r\n\r\nuntil the end"; c.close_after = true; break;
      case NO_CONTENT: s += "\r\n"; break;
      case DROP_IDLE: s += "Content-Length: 0\r\n\r\n"; c.close_after = true; break;
      case REDIRECT: s += "Location: http://127.0.0.1:9091/elsewhere\r\nContent-Length: 0\r\n\r\n"; break;
      case ERR4: case ERR5: s += blurb("wrong\n", r); break;
      case EARLY_ERR: s += "Connection: close\r\nContent-Length: 6\r\n\r\nwrong\n"; c.close_after = true; break;
      case HANG_UP: s = ""; c.close_after = true; break;
      case RST: s = ""; c.close_after = c.rst_after = true; break;
      case PARTIAL: s = "HTTP/1."; c.close_after = true; break;
      case HALF_HEAD: s += "Content-Le"; c.close_after = c.rst_after = true; break;   // (libcurl takes an orderly end there for a response)
      case SHORT_BODY: s += "Content-Length: 100\r\n\r\nshort"; c.close_after = true; break;
      case CUT_CHUNK: s += "Transfer-Encoding: chunked\r\n\r\n20\r\nabc"; c.close_after = true; break;
      case GARBAGE: s = "SSH-2.0-OpenSSH_9.6\r\n220 hello\r\n\r\n"; c.close_after = true; break;
      case NEVER: c.mute = true; s = ""; break;
      case DRIP: s += "Content-Length: 1000000\r\n\r\n"; c.drip = 1000000; break;
      default: s += "Content-Length: 0\r\n\r\n"; break;
    }
    if (r.act == GARBAGE || r.act == PARTIAL || r.act == HALF_HEAD || r.act == CUT_CHUNK || r.act == SHORT_BODY || r.act == HANG_UP || r.act == RST) dsim::note_fault(dsim::F_APP);
    c.out += s;
  }
  void request_head(Conn& c, size_t e) {
    reqs.emplace_back(new Req);
    Req& r = *reqs.back();
    c.cur = (int)reqs.size() - 1;
    r.conn = c.fd; r.nth = c.nreq++;
    r.ev_head = dsim::ev();
    size_t l = c.in.find("\r\n");
    std::string line = c.in.substr(0, l);
    size_t a = line.find(' '), b = line.rfind(' ');
    if (a == std::string::npos || b == a || line.find(' ', a + 1) != b) fail("malformed request line: " + line);
    r.method = line.substr(0, a); r.target = line.substr(a + 1, b - a - 1); r.proto = line.substr(b + 1);
    if (r.proto != "HTTP/1.1") fail("request line: " + line);
    if (!http::parse_headers(c.in.substr(l + 2, e + 2 - l - 2), r.hs)) fail("malformed request head: " + c.in.substr(0, e));
    c.in.erase(0, e + 4);
    if (http::count_header(r.hs, "content-length") > 1) fail("more than one Content-Length in a request");
    c.chunked = http::lower(http::header(r.hs, "transfer-encoding")) == "chunked";
    c.need = c.chunked ? 0 : strtoull(http::header(r.hs, "content-length").c_str(), nullptr, 10);
    pick(c, r);
    bool expect = http::count_header(r.hs, "expect") > 0;
    if (r.act == CONTINUE || (expect && r.act % 2)) c.out += "HTTP/1.1 100 Continue\r\n\r\n";
    if (r.act == SLOW_READ) c.read_at = dsim::now() + 30000000;
    if (r.act == EARLY_ERR) { r.ev_ans = dsim::ev(); answer(c, r); }
    c.wait_body = true;
  }
  void body_done(Conn& c) {
    Req& r = *reqs[c.cur];
    r.complete = true;
    r.ev_full = dsim::ev();
    c.wait_body = false;
    if (c.in.size()) fail("a request is followed by bytes that belong to no request: " + expo::excerpt(c.in));
    if (r.act != EARLY_ERR) { r.ev_ans = dsim::ev(); answer(c, r); }
  }
  void input(Conn& c) {
    for (;;) {
      if (c.cur >= 0 && !c.wait_body) {
        if (c.in.size() && !c.close_after) fail("a client sends although its last request has not been answered: " + expo::excerpt(c.in));
        return;
      }
      if (c.cur < 0) {
        size_t e = c.in.find("\r\n\r\n");
        if (e == std::string::npos) return;
        request_head(c, e);
      }
      Req& r = *reqs[c.cur];
      if (c.chunked) {
        size_t l = c.in.find("\r\n");
        if (l == std::string::npos) return;
        size_t n = strtoull(c.in.c_str(), nullptr, 16);
        if (c.in.size() < l + 2 + n + 2) return;
        r.body += c.in.substr(l + 2, n);
        c.in.erase(0, l + 2 + n + 2);
        if (n) continue;
      } else {
        size_t n = std::min(c.need - r.body.size(), c.in.size());
        r.body.append(c.in, 0, n);
        c.in.erase(0, n);
        if (r.body.size() < c.need) return;
      }
      body_done(c);
    }
  }
  // false: the connection is over
  bool output(Conn& c) {
    while (c.off < c.out.size()) {
      size_t n = c.out.size() - c.off;
      if (c.cur >= 0 && reqs[c.cur]->act == PIECES && n > 3) n = 3;
      ssize_t k = send(c.fd, c.out.data() + c.off, n, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (k < 0) return errno == EAGAIN;
      c.off += (size_t)k;
    }
    c.out.clear(); c.off = 0;
    if (c.cur >= 0 && c.wait_body && reqs[c.cur]->act == EARLY_ERR) { reqs[c.cur]->answered = true; reqs[c.cur]->ev_done = dsim::ev(); }
    if (c.cur >= 0 && !c.wait_body && !c.mute) {
      Req& r = *reqs[c.cur];
      if (c.drip > 0) { c.drip--; c.out = "x"; c.out_at = dsim::now() + 200000000; return true; }
      if (r.valid()) { r.answered = true; r.ev_done = dsim::ev(); }
      c.cur = -1;
      if (c.close_after) { drop(c, c.rst_after); return true; }
    }
    return true;
  }
  void serve() {
    std::vector<char> buf(65536);
    std::vector<struct pollfd> pf;
    for (;;) {
      size_t live = 0;
      for (size_t i = 0; i < conns.size(); i++) if (conns[i]->fd >= 0) { if (live != i) std::swap(conns[live], conns[i]); live++; }
      conns.resize(live);
      if (stop && conns.empty()) break;
      pf.clear();
      pf.push_back({lfd, POLLIN, 0});
      u64 now = dsim::now(), next = ~0ull;
      for (auto& cp : conns) {
        Conn& c = *cp;
        short e = 0;
        if (c.read_at > now) next = std::min(next, c.read_at); else e |= POLLIN;
        if (c.out.size() || (c.cur >= 0 && !c.wait_body && !c.mute)) { if (c.out_at > now) next = std::min(next, c.out_at); else e |= POLLOUT; }
        pf.push_back({c.fd, e, 0});
      }
      u64 ms = next == ~0ull ? ~0ull : (next - now) / 1000000 + 1;
      poll(pf.data(), pf.size(), next == ~0ull ? -1 : (int)ms);
      for (size_t i = 0; i < conns.size(); i++) {
        Conn& c = *conns[i];
        short re = pf[i + 1].revents;
        if (re & (POLLIN | POLLHUP | POLLERR) && (c.read_at <= dsim::now() || re & (POLLHUP | POLLERR))) {
          size_t lim = c.cur >= 0 && reqs[c.cur]->act == SLOW_READ ? 20000 : buf.size();
          ssize_t k = recv(c.fd, buf.data(), lim, MSG_DONTWAIT);
          if (k == 0 || (k < 0 && errno != EAGAIN)) { drop(c, false); continue; }
          if (k > 0) {
            c.in.append(buf.data(), (size_t)k);
            if (lim == 20000) c.read_at = dsim::now() + 30000000;
            input(c);
            if (c.cur >= 0 && !c.wait_body && c.out.empty() && !c.mute && c.out_at <= dsim::now()) { if (!output(c)) { drop(c, false); continue; } if (c.fd < 0) continue; }
          }
        }
        if (c.fd >= 0 && c.out_at <= dsim::now() && (c.out.size() || (c.cur >= 0 && !c.wait_body && !c.mute))) if (!output(c)) drop(c, false);
      }
      if (pf[0].revents & POLLIN) {
        int fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK);
        if (fd >= 0) { if (stop) close(fd); else { conns.emplace_back(new Conn); conns.back()->fd = fd; } }
      }
    }
    close(lfd);
  }
};

// ---- collectables
struct Taken { u64 serial, at; int coll, call, thread; bool empty; std::vector<MetricFamily> fams; };
struct Refused : std::exception { const char* what() const noexcept override { return "the presetup function refuses"; } };
struct World;
struct Probe : Collectable {
  World& w; int id;
  Probe(World& x, int i) : w(x), id(i) {}
  std::vector<MetricFamily> Collect() const override;
};
struct Coll { std::shared_ptr<Probe> obj; std::weak_ptr<Collectable> weak; Labels labels; bool has_labels = false; int size = 1; u64 reg_inv = ~0ull, reg_ret = ~0ull, drop_inv = ~0ull, dead = ~0ull; };

enum K { PUSH, PUSHADD, APUSH, APUSHADD, DEL, DELI, ADEL, ADELI, HEADER, REGC, DROP, PAUSE, WAIT, FORGET };
const char* const opname[] = {"Push", "PushAdd", "AsyncPush", "AsyncPushAdd", "Delete", "DeleteForInstance", "AsyncDelete", "AsyncDeleteForInstance", "AddHttpHeader", "RegisterCollectable", "drop", "pause", "wait", "forget"};
struct Call {
  int th, k;
  u64 inv, ret = ~0ull, t_inv, t_ret = 0, f_inv, f_ret = 0;
  u64 ready = ~0ull, t_ready = 0;      // asynchronous: its future had a value (or an exception) by then
  int result = 0;
  bool known = false;                  // result is valid
  std::string threw;                   // exception from the call or its future
  bool threw_call = false;
  u64 nf_inv = 0, nf_end = 0, rf_inv = 0, rf_end = 0;
};
struct Hdr { std::string name, value; u64 inv, ret; bool added; };

const char* const text[] = {"plain", "a/b", "with space", "\xc3\xbcnicode \xe2\x82\xac", "a+b?c#d&e=f", "\"quo'te\"", "line\nfeed", "", ".", "..", "~-._", "%2F", "@base64", "=", "semi;colon:", "\\back", "x", "\x01\x7f\xff"};
enum { NTEXT = 18 };

struct World {
  const Plan& p;
  Server srv;
  std::unique_ptr<Gateway> gw;
  std::vector<std::unique_ptr<Coll>> colls;
  std::vector<std::unique_ptr<Call>> calls;
  std::vector<Taken> taken;
  std::vector<Hdr> headers;
  std::vector<int> cur;                // call in progress per simulated thread
  std::string job, host, prefix, user, pass, agent;
  Labels labels;
  long timeout;
  int presetups = 0, presetup_throws = -1, thrown = 0;
  u64 serial;
  const int number;                    // of the gateway
  explicit World(const Plan& pl, int num = 0) : p(pl), srv(pl, PORT + num), cur(64, -1), serial(1000000000ull * (u64)num), number(num) {
    taken.reserve(4096);
    Rng g((u64)p.get("world_seed") + (u64)num);
    job = p.get("nasty") ? text[g.n(NTEXT)] : "sample_client";
    int n = (int)p.get("nlabels");
    for (int i = 0; i < n; i++) labels["l" + std::to_string(i)] = p.get("nasty") ? text[g.n(NTEXT)] : "v" + std::to_string(i);
    if (n && g.pct(50)) {
      std::string name = g.pct(20) ? "" : g.of<std::string>({"host-1", "node.example.org", "::1", "a b", "UPPER.Case"});
      Labels l = Gateway::GetInstanceLabel(name);
      if (name.empty() ? !l.empty() : l.size() != 1 || l.begin()->first != "instance" || l.begin()->second != name) fail("GetInstanceLabel(\"" + name + "\") is not {instance=\"" + name + "\"}");
      if (name.size()) labels["instance"] = name;
    }
    host = p.get("dns") ? "gw.example" : "127.0.0.1";
    timeout = (long)p.get("timeout");
    switch ((p.get("auth") + 2 * num) % 5) { case 1: user = "user"; pass = "secret"; break; case 2: user = "us er@\xc3\xbc"; pass = "p:a/s s\xe2\x82\xac\"%"; break; case 3: user = "lonely"; break; case 4: pass = "ignored"; break; }
    if (p.get("variant")) { agent = "sim/" + std::to_string(g.n(1000)); if (user.empty()) pass = ""; }
    static const char* const pre[] = {"", "/", "/pre/fix", "/pre/fix/", "/a%20b/"};
    if (p.get("variant") == 2) prefix = pre[g.n(5)];
    for (int i = 0; i < (int)p.get("ncoll"); i++) {
      colls.emplace_back(new Coll);
      Coll& c = *colls.back();
      c.has_labels = g.pct(60);
      if (c.has_labels) { int k = (int)g.n(3); for (int j = 0; j < k; j++) c.labels[std::string("c") + (char)('a' + j)] = p.get("nasty") ? text[g.n(NTEXT)] : "w"; if (k == 0 && g.pct(50)) c.labels["only"] = "1"; }
      c.labels["id"] = std::to_string(i);
      c.has_labels = true;
      c.size = g.pct((u32)p.get("empties")) ? 0 : (int)(g.pct(70) ? 1 + g.n(5) : g.n((u64)p.get("maxsize", 200)) + 1);
      if (p.get("huge") && i == 0) c.size = 40000;
      c.obj = std::make_shared<Probe>(*this, i);
      c.weak = c.obj;
    }
  }
  std::string base() const { std::string s = prefix; while (s.size() && s.back() == '/') s.pop_back(); return s; }
  void preset(CURL* c) {
    if (++presetups == presetup_throws) { dsim::note_fault(dsim::F_APP); thrown++; throw Refused(); }
    auto ok = [](CURLcode e) { if (e != CURLE_OK) throw Refused(); };
    ok(curl_easy_setopt(c, CURLOPT_USERAGENT, agent.c_str()));
    if (user.size()) { ok(curl_easy_setopt(c, CURLOPT_HTTPAUTH, (long)CURLAUTH_BASIC)); ok(curl_easy_setopt(c, CURLOPT_USERNAME, user.c_str())); ok(curl_easy_setopt(c, CURLOPT_PASSWORD, pass.c_str())); }
    if (timeout) ok(curl_easy_setopt(c, CURLOPT_TIMEOUT, timeout));
  }
  Gateway* make() {
    API;
    std::string port = std::to_string(srv.port);
    auto pre = [this](CURL* c) { preset(c); };
    switch (p.get("variant")) {
      case 0:
        if (user.empty() && pass.empty() && !timeout) return labels.empty() ? new Gateway(host, port, job) : new Gateway(host, port, job, labels);
        return new Gateway(host, port, job, labels, user, pass, std::chrono::seconds(timeout));
      case 1: return new Gateway(host, port, std::function<void(CURL*)>(pre), job, labels);
      default: return new Gateway((p.get("scheme") ? "http://" : "") + host + ":" + port + prefix, std::function<void(CURL*)>(pre), job, labels);
    }
  }
  u64 net_faults() const {
    u64 n = 0;
    for (auto k : {dsim::F_NET_RST, dsim::F_NET_REFUSE, dsim::F_NET_BLACKHOLE, dsim::F_DNS}) n += dsim::fault_count(k);
    return n;
  }
  u64 res_faults() const {
    u64 n = 0;
    for (auto k : {dsim::F_CURL_INIT, dsim::F_CURL_SLIST, dsim::F_CURL_OPT, dsim::F_ALLOC, dsim::F_THREAD}) n += dsim::fault_count(k);
    return n + (u64)thrown;
  }
};
void perform(World& w, const std::vector<Op>& ops, int th, World* second = nullptr);   // the operations of one thread (of `second`: those with y != 0)
void judge(World& w);                              // everything that was recorded, after the calls have returned
void finish(World& w, const char* when, u64 others = 0);   // destroys the gateway, then checks what is left while so many other gateways exist
void register_collectable(World& w, int i);
}  // namespace push
