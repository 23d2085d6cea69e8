// C17-C21: the push gateway client against a simulated Pushgateway.
#include "push.h"

namespace push {
std::vector<MetricFamily> Probe::Collect() const {
  Outside o;
  Coll& c = *w.colls[id];
  Taken t;
  t.serial = ++w.serial; t.at = dsim::ev(); t.coll = id; t.thread = dsim::self(); t.call = w.cur[dsim::self()]; t.empty = c.size == 0;
  if (t.call < 0) fail("a collectable is collected outside of any call of the gateway");
  std::vector<MetricFamily> r;
  if (c.size) {
    MetricFamily f;
    f.name = "p"; f.type = MetricType::Gauge; f.help = text[(size_t)id % NTEXT];
    ClientMetric m;
    m.label = {{"id", std::to_string(id)}};
    if (w.p.get("long") && id % 2 == 0) m.label.push_back({"long", std::string((size_t)w.p.get("long") + (size_t)t.serial % 7, (char)('a' + t.serial % 26))});
    m.gauge.value = (double)t.serial;
    f.metric.push_back(m);
    r.push_back(f);
    MetricFamily n;
    n.name = "n"; n.type = MetricType::Counter;
    for (int i = 1; i < c.size; i++) { ClientMetric x; x.label = {{"i", std::to_string(i)}, {"text", i == 1 ? std::string("n\0l", 3) : text[i % NTEXT]}}; x.counter.value = i * 0.5; n.metric.push_back(x); }
    if (c.size > 1) r.push_back(n);
  }
  if (c.size > 1000) { t.fams.assign(r.begin(), r.begin() + 1); } else t.fams = r;
  w.taken.push_back(t);
  dsim::yield_point();
  return r;
}
void register_collectable(World& w, int i) {
  Coll& c = *w.colls[i];
  if (c.reg_inv != ~0ull) return;
  c.reg_inv = dsim::ev();
  bool ok = true;
  { API; std::weak_ptr<Collectable> k = c.weak; try { w.gw->RegisterCollectable(k, c.has_labels ? &c.labels : nullptr); } catch (const std::bad_alloc&) { ok = false; } }
  if (ok) c.reg_ret = dsim::ev();
  else if (!w.res_faults()) fail("registering a collectable failed although nothing else did");
  else c.reg_inv = ~0ull;
}
namespace {
bool is_async(int k) { return k == APUSH || k == APUSHADD || k == ADEL || k == ADELI; }
bool is_push(int k) { return k <= APUSHADD; }
u64 end_of(const Call& c) { return is_async(c.k) && !c.threw_call ? c.ready : c.ret; }

// one label of a grouping key as the Pushgateway reads it
bool b64url(const std::string& in, std::string& out) {
  std::string s = in;
  while (s.size() && s.back() == '=') s.pop_back();
  u32 acc = 0;
  int bits = 0;
  for (char c : s) {
    int v;
    if (c >= 'A' && c <= 'Z') v = c - 'A'; else if (c >= 'a' && c <= 'z') v = c - 'a' + 26; else if (c >= '0' && c <= '9') v = c - '0' + 52; else if (c == '-') v = 62; else if (c == '_') v = 63; else return false;
    acc = acc << 6 | (u32)v; bits += 6;
    if (bits >= 8) { bits -= 8; out += (char)(acc >> bits & 255); }
  }
  return bits < 6 && (acc & ((1u << bits) - 1)) == 0;
}
bool unpercent(const std::string& in, std::string& out) {
  for (size_t i = 0; i < in.size(); i++) {
    if (in[i] != '%') { out += in[i]; continue; }
    if (i + 2 >= in.size() || !isxdigit((unsigned char)in[i + 1]) || !isxdigit((unsigned char)in[i + 2])) return false;
    out += (char)strtol(in.substr(i + 1, 2).c_str(), nullptr, 16); i += 2;
  }
  return true;
}
typedef std::vector<std::pair<std::string, std::string>> Key;
// "": decoded
std::string decode(const World& w, const std::string& target, Key& k) {
  std::string pre = w.base() + "/metrics/";
  if (target.compare(0, pre.size(), pre)) return "the path does not begin with " + pre;
  for (char c : target) if (c <= ' ' || c == '?' || c == '#' || (unsigned char)c >= 127) return "the path contains characters that do not belong there";
  std::vector<std::string> seg(1);
  for (char c : target.substr(pre.size())) { if (c == '/') seg.push_back(""); else seg.back() += c; }
  if (seg.size() % 2) return "the path has an odd number of components";
  for (size_t i = 0; i < seg.size(); i += 2) {
    std::string n, v;
    if (!unpercent(seg[i], n)) return "bad % escape";
    if (n.size() > 7 && n.compare(n.size() - 7, 7, "@base64") == 0) {
      n.resize(n.size() - 7);
      std::string t;
      if (!unpercent(seg[i + 1], t) || t.empty() || !b64url(t, v)) return "'" + seg[i + 1] + "' is not base64url";
    } else {
      if (!unpercent(seg[i + 1], v)) return "bad % escape";
      if (v.empty()) return "an empty path component";
      if (v == "." || v == "..") return "a dot segment";
    }
    if (!expo::name_ok(n, false)) return "'" + n + "' is no label name";
    k.push_back({n, v});
  }
  if (k.empty() || k[0].first != "job") return "the path does not begin with a job";
  std::sort(k.begin() + 1, k.end());
  return "";
}
std::string text_of(const Key& k) { std::string s; for (auto& x : k) s += (s.empty() ? "" : ", ") + x.first + "=\"" + expo::excerpt(x.second) + "\""; return "{" + s + "}"; }
Key key_of(const World& w, int coll, bool with_labels) {
  Key k{{"job", w.job}};
  if (with_labels) k.insert(k.end(), w.labels.begin(), w.labels.end());
  if (coll >= 0) k.insert(k.end(), w.colls[coll]->labels.begin(), w.colls[coll]->labels.end());
  std::sort(k.begin() + 1, k.end());
  return k;
}
const char b64c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    u32 v = (u32)(unsigned char)s[i] << 16 | (i + 1 < s.size() ? (u32)(unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (u32)(unsigned char)s[i + 2] : 0);
    r += b64c[v >> 18]; r += b64c[v >> 12 & 63];
    r += i + 1 < s.size() ? b64c[v >> 6 & 63] : '='; r += i + 2 < s.size() ? b64c[v & 63] : '=';
  }
  return r;
}
u64 serial_of(const std::string& body) {
  size_t a = body.find("\np{");
  if (a == std::string::npos) return 0;
  a = body.find("} ", a);
  if (a == std::string::npos) return 0;
  return strtoull(body.c_str() + a + 2, nullptr, 10);
}
std::string show(const Req& r) { return fmt(" (request %s %s on connection %d, #%d, %zu body bytes, server act %d status %d%s)", r.method.c_str(), expo::excerpt(r.target).c_str(), r.conn, r.nth, r.body.size(), r.act, r.status, r.answered ? "" : " not answered"); }
std::string show(const Call& c) { return fmt(" (%s by T%d [%llu,%llu] ready %llu result %d%s)", opname[c.k], c.th, (unsigned long long)c.inv, (unsigned long long)c.ret, (unsigned long long)c.ready, c.result, c.threw.size() ? (" threw " + c.threw).c_str() : ""); }
}  // namespace

namespace {
struct Performer {
  World& w; const int th;
  std::vector<std::pair<int, std::future<int>>> pend;
  Performer(World& x, int t) : w(x), th(t) {}
  void step(const Op& o);
  void wait(size_t i, bool forget);
};
}  // namespace
void perform(World& w, const std::vector<Op>& ops, int th, World* second) {
  Performer a(w, th), b(second ? *second : w, th);
  for (auto& o : ops) if (o.th == th) (second && o.y != 0 ? b : a).step(o);
  while (a.pend.size()) a.wait(0, false);
  while (b.pend.size()) b.wait(0, false);
}
namespace {
void Performer::step(const Op& o) {
  auto begin = [&](int k) {
    w.calls.emplace_back(new Call);
    Call& c = *w.calls.back();
    c.th = th; c.k = k; c.inv = dsim::ev(); c.t_inv = dsim::now(); c.nf_inv = w.net_faults(); c.rf_inv = w.res_faults();
    w.cur[dsim::self()] = (int)w.calls.size() - 1;
    return &c;
  };
  auto done = [&](Call* c) {
    w.cur[dsim::self()] = -1;
    c->ret = dsim::ev(); c->t_ret = dsim::now(); c->nf_end = w.net_faults(); c->rf_end = w.res_faults();
    dsim::log_event(c->ret, (u64)c->result);
  };
    switch (o.k) {
      case PUSH: case PUSHADD: case DEL: case DELI: {
        Call* c = begin(o.k);
        try { API; c->result = o.k == PUSH ? w.gw->Push() : o.k == PUSHADD ? w.gw->PushAdd() : o.k == DEL ? w.gw->Delete() : w.gw->DeleteForInstance(); c->known = true; }
        catch (const std::exception& e) { c->threw = e.what(); c->threw_call = true; }
        done(c);
        break;
      }
      case APUSH: case APUSHADD: case ADEL: case ADELI: {
        Call* c = begin(o.k);
        int id = (int)w.calls.size() - 1;
        for (int i = (int)w.calls.size() - 1; i >= 0; i--) if (w.calls[i].get() == c) id = i;
        std::future<int> f;
        try { API; f = o.k == APUSH ? w.gw->AsyncPush() : o.k == APUSHADD ? w.gw->AsyncPushAdd() : o.k == ADEL ? w.gw->AsyncDelete() : w.gw->AsyncDeleteForInstance(); }
        catch (const std::exception& e) { c->threw = e.what(); c->threw_call = true; }
        done(c);
        if (!c->threw_call) pend.emplace_back(id, std::move(f));
        break;
      }
      case HEADER: {
        Hdr hd;
        hd.name = (w.number ? "X-G" : "X-H") + std::to_string(w.headers.size()); hd.value = "v" + std::to_string(o.a);
        size_t i = w.headers.size();
        hd.inv = dsim::ev(); hd.ret = ~0ull; hd.added = true;
        w.headers.push_back(hd);
        u64 rf = w.res_faults();
        bool r = false;
        try { API; r = w.gw->AddHttpHeader(hd.name + (o.b ? ":" : ": ") + hd.value); } catch (const std::bad_alloc&) { if (!w.res_faults()) throw; }
        w.headers[i].added = r;
        w.headers[i].ret = dsim::ev();
        if (!r && w.res_faults() == rf) fail("adding a header failed although nothing else did");
        if (!r) dsim::probe(6);
        break;
      }
      case REGC: register_collectable(w, (int)o.a); break;
      case DROP: {
        Coll& c = *w.colls[o.a];
        if (c.drop_inv != ~0ull) break;
        c.drop_inv = dsim::ev();
        { API; c.obj.reset(); }
        dsim::probe(5);
        break;
      }
      case PAUSE: dsim::sleep_ns((u64)o.a); break;
      case WAIT: wait((size_t)o.a, false); break;
      case FORGET: wait((size_t)o.a, true); break;
    }
}
void Performer::wait(size_t i, bool forget) {
    if (pend.empty()) return;
    i %= pend.size();
    Call* c = w.calls[pend[i].first].get();
    c->f_inv = dsim::ev();
    {
      if (forget) { API; pend[i].second = std::future<int>(); }
      else {
        // it needs nobody to wait for it
        for (u64 d = 1000000; c->f_inv % 2 && d < 10000000000000ull; d *= 2) {
          std::future_status s;
          { API; s = pend[i].second.wait_for(std::chrono::seconds(0)); }
          if (s == std::future_status::deferred) fail(std::string("the future of ") + opname[c->k] + " never becomes ready unless somebody waits for it");
          if (s == std::future_status::ready) { dsim::probe(11); break; }
          dsim::sleep_ns(d);
        }
        try { API; c->result = pend[i].second.get(); c->known = true; }
        catch (const std::exception& e) { c->threw = e.what(); }
      }
    }
    c->f_ret = dsim::ev(); c->ready = dsim::ev(); c->t_ready = dsim::now(); c->nf_end = w.net_faults(); c->rf_end = w.res_faults();
    dsim::log_event(c->ready, (u64)c->result);
    pend.erase(pend.begin() + (long)i);
  }
}  // namespace

void judge(World& w) {
  const Plan& p = w.p;
  auto& reqs = w.srv.reqs;
  int pushers = 0, last_push = -1;
  bool async = false;
  for (auto& c : w.calls) { if (is_push(c->k) && c->th != last_push) { pushers++; last_push = c->th; } async |= is_async(c->k); }
  const bool solo = !async && [&]() { std::set<int> s; for (auto& c : w.calls) s.insert(c->th); return s.size() <= 1; }();
  std::map<u64, Taken*> by_serial;
  for (auto& t : w.taken) by_serial[t.serial] = &t;
  std::vector<std::vector<Taken*>> of_call(w.calls.size());
  for (auto& t : w.taken) {
    Call& c = *w.calls[t.call];
    if (!is_push(c.k)) fail("a collectable is collected by a call that does not push" + show(c));
    of_call[t.call].push_back(&t);
  }
  const bool lossy = w.net_faults() > 0;
  std::map<u64, std::vector<Req*>> sent;         // by serial
  std::vector<Req*> empty, deletes;
  // every request on its own
  std::string want_auth = w.user.empty() ? "" : "Basic " + b64(w.user + ":" + w.pass);
  for (auto& rp : reqs) {
    Req& r = *rp;
    if (!r.complete) {
      // (refused before all of it had been sent)
      Key k;
      if (!r.answered || r.method == "DELETE" || decode(w, r.target, k).size()) continue;
      r.serial = serial_of(r.body);
      if (!by_serial.count(r.serial)) { r.serial = 0; for (auto& t : w.taken) if (t.at < r.ev_head && k == key_of(w, t.coll, true)) r.serial = t.serial; }
      if (r.serial) sent[r.serial].push_back(&r);
      continue;
    }
    if (r.method != "POST" && r.method != "PUT" && r.method != "DELETE") fail("unexpected method" + show(r));
    if (http::header(r.hs, "host") != w.host + ":" + std::to_string(w.srv.port)) fail("Host is " + http::header(r.hs, "host") + show(r));
    if (http::count_header(r.hs, "authorization") > 1 || http::header(r.hs, "authorization") != want_auth) fail("credentials are '" + http::header(r.hs, "authorization") + "' instead of '" + want_auth + "'" + show(r));
    if (w.agent.size() && http::header(r.hs, "user-agent") != w.agent) fail("the preset options are not in force" + show(r));
    if (http::count_header(r.hs, "content-encoding")) fail("unexpected Content-Encoding" + show(r));
    Key k;
    std::string e = decode(w, r.target, k);
    if (e.size()) fail("the URL path is not one of the Pushgateway: " + e + show(r));
    if (r.method == "DELETE") {
      if (r.body.size()) fail("a delete request carries a body" + show(r));
      if (k != key_of(w, -1, false) && k != key_of(w, -1, true)) fail("a delete request names " + text_of(k) + show(r));
      deletes.push_back(&r);
      continue;
    }
    if (http::count_header(r.hs, "content-type") != 1 || http::header(r.hs, "content-type") != "text/plain; version=0.0.4; charset=utf-8") fail("Content-Type is " + http::header(r.hs, "content-type") + show(r));
    if (r.body.empty()) {
      bool known = false;
      for (size_t i = 0; i < w.colls.size(); i++) if (!w.colls[i]->size && k == key_of(w, (int)i, true)) { known = true; r.serial = i; }
      if (!known) fail("an empty push request for " + text_of(k) + " belongs to no collectable" + show(r));
      empty.push_back(&r);
      continue;
    }
    r.serial = serial_of(r.body);
    auto it = by_serial.find(r.serial);
    if (it == by_serial.end()) fail("a request carries a body that was never collected: " + expo::excerpt(r.body) + show(r));
    Taken& t = *it->second;
    Call& c = *w.calls[t.call];
    if (w.colls[t.coll]->size > 1000) {
      size_t n = 0;
      for (char ch : r.body) n += ch == '\n';
      if (n != (size_t)(1 + 1 + 1 + 1 + w.colls[t.coll]->size - 1) && n != (size_t)(2 + 1 + w.colls[t.coll]->size - 1)) fail(fmt("a large body has %zu lines for %d metrics", n, w.colls[t.coll]->size) + show(r));
    } else {
      e = expo::differs(t.fams, r.body);
      if (e.size()) fail("the body is not what was collected: " + e + show(r));
    }
    if (k != key_of(w, t.coll, true)) fail("the URL decodes to " + text_of(k) + " instead of " + text_of(key_of(w, t.coll, true)) + show(r));
    const char* m = c.k == PUSH || c.k == APUSH ? "POST" : "PUT";
    if (r.method != m) fail(std::string("the method is not ") + m + show(r) + show(c));
    if (r.ev_head < c.inv || r.ev_head < t.at) fail("a request was made before its call" + show(r) + show(c));
    if (r.ev_head > end_of(c)) {
      // (bytes of an attempt that was given up may still arrive)
      if (c.known && c.result == 200) fail("a request arrives after its call has returned" + show(r) + show(c));
    }
    sent[r.serial].push_back(&r);
  }
  // headers
  auto headers = [&](const Req& r, const Call* c) {
    if (!r.complete) return;
    for (auto& x : r.hs) {
      bool ours = x.first.size() < 4 || (http::lower(x.first.substr(0, 3)) != "x-h" && http::lower(x.first.substr(0, 3)) != "x-g");
      for (auto& y : w.headers) if (http::lower(y.name) == http::lower(x.first)) ours = true;
      if (!ours) fail("header " + x.first + " was added to another gateway" + show(r));
    }
    for (auto& x : w.headers) {
      int n = http::count_header(r.hs, http::lower(x.name).c_str());
      if (n > 1) fail("header " + x.name + " is sent more than once" + show(r));
      if (n && http::header(r.hs, http::lower(x.name).c_str()) != x.value) fail("header " + x.name + " is '" + http::header(r.hs, http::lower(x.name).c_str()) + "'" + show(r));
      if (n && (x.inv > r.ev_full || (!x.added && x.ret != ~0ull))) fail("header " + x.name + ", which was " + (x.added ? "not added yet" : "refused") + ", is part of a request" + show(r));
      if (!n && c && x.added && x.ret < c->inv) fail("header " + x.name + " is missing in a request" + show(r) + show(*c));
    }
  };
  // repeated requests: only an unanswered one on a connection used before may be repeated
  auto repeats = [&](const std::vector<Req*>& v) {
    for (size_t i = 0; i + 1 < v.size(); i++)
      if ((v[i]->answered && !lossy) || (v[i]->nth == 0 && !lossy)) fail(fmt("the same push is sent %zu times", v.size()) + show(*v[i]) + show(*v[i + 1]));
  };
  std::map<int, std::vector<Req*>> empties_by_coll;
  for (auto r : empty) empties_by_coll[(int)r->serial].push_back(r);
  std::set<const Req*> claimed;
  std::map<std::pair<int, int>, const Call*> before;     // collectable a was pushed before b
  std::map<int, int> empty_ok, empty_max;
  for (size_t ci = 0; ci < w.calls.size(); ci++) {
    Call& c = *w.calls[ci];
    if (!is_push(c.k)) continue;
    auto& ts = of_call[ci];
    const bool as = is_async(c.k);
    const u64 end = end_of(c);
    if (c.threw.size()) {
      if (c.rf_end == c.rf_inv) fail("a push threw although nothing failed" + show(c));
      dsim::probe(7);
    }
    const u64 dur = (as && !c.threw_call ? c.t_ready : c.t_ret) - c.t_inv;
    const bool excuse = c.nf_end != c.nf_inv || c.rf_end != c.rf_inv || (w.timeout && dur + 1100000000ull > (u64)w.timeout * 1000000000ull);
    // collected once each, in order of registration, all that had to be
    std::set<int> seen;
    for (size_t i = 0; i < ts.size(); i++) {
      Coll& x = *w.colls[ts[i]->coll];
      if (!seen.insert(ts[i]->coll).second) fail(fmt("collectable %d is collected twice by one push", ts[i]->coll) + show(c));
      if (x.reg_inv > c.ret) fail(fmt("collectable %d is pushed although it is not registered", ts[i]->coll) + show(c));
      if (ts[i]->at > c.ret) fail("a collectable is collected after the call" + show(c));
      for (size_t j = i + 1; j < ts.size(); j++) {
        Coll& y = *w.colls[ts[j]->coll];
        if (y.reg_ret < x.reg_inv) fail(fmt("collectable %d is pushed before collectable %d, which was registered first", ts[i]->coll, ts[j]->coll) + show(c));
        auto rev = before.find({ts[j]->coll, ts[i]->coll});
        if (rev != before.end()) fail(fmt("collectables %d and %d are pushed in different orders", ts[i]->coll, ts[j]->coll) + show(c) + show(*rev->second));
        before[{ts[i]->coll, ts[j]->coll}] = &c;
      }
    }
    enum St { S, F, N, U };
    std::vector<St> st;
    std::vector<int> status;
    std::vector<bool> any, bad;
    for (auto t : ts) {
      std::vector<Req*> v;
      if (!t->empty) v = sent[t->serial];
      else if (solo) { for (auto r : empties_by_coll[t->coll]) if (r->ev_head > t->at && r->ev_head < end) v.push_back(r); }
      for (auto r : v) headers(*r, &c);
      repeats(v);
      bool incomplete = false;
      for (auto& r : reqs) if (!r->complete && r->ev_head > t->at && r->ev_head < end) incomplete = true;
      any.push_back(!v.empty());
      Req* l = v.empty() ? nullptr : v.back();
      bad.push_back((l && !l->valid()) || incomplete);
      status.push_back(l ? l->status : 0);
      if (t->empty && !solo) st.push_back(U);
      else if (!l || !l->answered || l->ev_ans > end) st.push_back(N);
      else st.push_back(l->status < 400 ? S : F);
    }
    auto lack = [&](size_t upto) {
      // collectables that had to be pushed before ts[upto] (or at all)
      for (size_t i = 0; i < w.colls.size(); i++) {
        Coll& x = *w.colls[i];
        if (seen.count((int)i) || x.reg_ret > c.inv || x.drop_inv < c.ret) continue;
        if (upto < ts.size() && !(x.reg_ret < w.colls[ts[upto]->coll]->reg_inv)) continue;
        fail(fmt("collectable %zu is alive and registered, but is not pushed", i) + show(c));
      }
    };
    if (as && !c.threw_call) {
      if (c.rf_end == c.rf_inv) lack(~(size_t)0);
    }
    if (!c.known) {
      // thrown or forgotten
      if (as && c.threw.empty()) for (size_t i = 0; i < ts.size(); i++) if (!any[i] && !ts[i]->empty && !excuse) fail("a request is still missing when the future is destroyed" + show(c));
      continue;
    }
    for (auto t : ts) if (t->empty) empty_max[t->coll]++;
    if (c.result == 200) {
      lack(~(size_t)0);
      for (size_t i = 0; i < ts.size(); i++) {
        if (st[i] == N) fail(fmt("a push returned 200 although the request of collectable %d was not answered", ts[i]->coll) + show(c) + (any[i] ? show(*(ts[i]->empty ? empties_by_coll[ts[i]->coll].back() : sent[ts[i]->serial].back())) : ""));
        if (st[i] == F) fail(fmt("a push returned 200 although the server answered %d", status[i]) + show(c));
        if (ts[i]->empty) empty_ok[ts[i]->coll]++;
        if (!as && i && any[i] && any[i - 1] && !ts[i]->empty && !ts[i - 1]->empty && sent[ts[i]->serial][0]->ev_head < sent[ts[i - 1]->serial].back()->ev_ans) fail("a request is sent before the previous one was answered" + show(c));
      }
      dsim::probe(1);
      if (ts.size() > 1) dsim::probe(2);
    } else if (c.result >= 400 || (c.result < 0 && c.result > -200)) {
      bool ok = false;
      std::string why = "no request explains the result";
      for (size_t f = 0; f < ts.size() && !ok; f++) {
        bool here;
        if (c.result >= 400) here = (st[f] == F && status[f] == c.result) || st[f] == U;
        else here = st[f] == U || (st[f] == N && (bad[f] || excuse)) || excuse;
        if (!here) continue;
        ok = true;
        if (!as) {
          for (size_t i = 0; i < f; i++) if (st[i] != S && st[i] != U) ok = false;
          for (size_t i = f + 1; i < ts.size(); i++) if (any[i]) { ok = false; why = "requests follow the failing one"; }
          if (ok) lack(f);
        }
      }
      if (!ok) {
        for (size_t i = 0; i < ts.size(); i++) why += fmt("; collectable %d: %s %d", ts[i]->coll, st[i] == S ? "answered" : st[i] == F ? "refused" : st[i] == N ? "not answered" : "unknown", status[i]) + (any[i] && !ts[i]->empty ? show(*sent[ts[i]->serial].back()) : "");
        fail("the result of a push is not that of its requests: " + why + show(c));
      }
      if (as) for (size_t i = 0; i < ts.size(); i++) if (!any[i] && !ts[i]->empty && !excuse && !bad[i]) fail(fmt("no request was made for collectable %d", ts[i]->coll) + show(c));
      dsim::probe(c.result < 0 ? 4 : 3);
    } else fail("impossible result of a push" + show(c));
  }
  // pushes without content, counted
  for (auto& kv : empties_by_coll) {
    int n = 0, once = 0;
    for (auto r : kv.second) { if (r->answered) n++; if (r->answered || r->nth == 0) once++; headers(*r, nullptr); }
    int cap = 0;
    for (auto& t : w.taken) if (t.coll == kv.first) cap++;
    if (!lossy && (n > cap || once > cap)) fail(fmt("collectable %d was pushed %d times but collected only %d times", kv.first, n, cap));
  }
  for (auto& kv : empty_ok) {
    int n = 0;
    for (auto r : empties_by_coll[kv.first]) if (r->answered && r->status < 400) n++;
    if (n < kv.second) fail(fmt("%d pushes of collectable %d succeeded, but only %d of its requests did", kv.second, kv.first, n));
  }
  // deletes
  for (auto& cp : w.calls) {
    Call& c = *cp;
    if (is_push(c.k)) continue;
    const bool as = is_async(c.k);
    const u64 end = end_of(c), dur = (as && !c.threw_call ? c.t_ready : c.t_ret) - c.t_inv;
    const bool excuse = c.nf_end != c.nf_inv || c.rf_end != c.rf_inv || (w.timeout && dur + 1100000000ull > (u64)w.timeout * 1000000000ull);
    if (c.threw.size() && c.rf_end == c.rf_inv) fail("a delete threw although nothing failed" + show(c));
    if (!c.known) continue;
    Key want = key_of(w, -1, c.k == DELI || c.k == ADELI);
    if (c.result > 0) {
      Req* mine = nullptr;
      for (auto r : deletes) {
        Key k;
        decode(w, r->target, k);
        if (r->status == c.result && r->answered && !claimed.count(r) && k == want && r->ev_head > c.inv && r->ev_ans < end) { mine = r; break; }
      }
      if (!mine) fail("a delete returned a status that no request of it was answered with" + show(c));
      claimed.insert(mine);
      headers(*mine, &c);
      dsim::probe(8);
    } else {
      bool ok = excuse;
      for (auto& r : reqs) if (!(r->answered && r->valid()) && r->ev_head > c.inv && r->ev_head < end && (!r->complete || r->method == "DELETE")) ok = true;
      if (!ok || c.result <= -200 || c.result == 0) fail("a delete failed although its request was answered" + show(c));
    }
  }
  for (auto r : deletes) {
    if (!claimed.count(r)) headers(*r, nullptr);
    if (claimed.count(r) || !r->answered || lossy || p.get("timeout") || w.res_faults()) continue;
    bool forgotten = false;
    for (auto& c : w.calls) if (!is_push(c->k) && !c->known) forgotten = true;
    if (!forgotten) fail("a delete request was made that no call asked for or whose answer no call returned" + show(*r));
  }
}

void finish(World& w, const char* when, u64 others) {
  { API; w.gw.reset(); }
  std::string s = std::string(" ") + when;
  dsim::CurlStats c = dsim::curl_stats();
  if (dsim::curl_live_handles() != others) fail(fmt("%llu HTTP client handle(s) exist for %llu gateway(s)", (unsigned long long)dsim::curl_live_handles(), (unsigned long long)others) + s);
  if (c.easy_init_ok != c.easy_cleanup + others) fail(fmt("%llu HTTP client handles were made, %llu released; %llu gateway(s) are left", (unsigned long long)c.easy_init_ok, (unsigned long long)c.easy_cleanup, (unsigned long long)others) + s);
  if (c.slist_nodes_live && !others) fail(fmt("%llu header list node(s) are not released", (unsigned long long)c.slist_nodes_live) + s);
  if (c.global_init_ok != c.global_cleanup + others) fail(fmt("global HTTP client state was initialised %llu times and released %llu times; %llu gateway(s) are left", (unsigned long long)c.global_init_ok, (unsigned long long)c.global_cleanup, (unsigned long long)others) + s);
}

namespace {
// construction, repeated while it fails
void construct(World& w, u64 others) {
  for (int attempt = 0;; attempt++) {
    u64 f0 = w.res_faults();
    w.presetup_throws = attempt == 0 && w.p.get("throw_ctor") ? w.presetups + 1 : -1;
    std::string why;
    if (attempt == 8) dsim::clear_faults();
    try { w.gw.reset(w.make()); } catch (const std::exception& e) { why = e.what(); if (why.empty()) why = "?"; }
    if (w.gw) break;
    if (w.res_faults() == f0) fail("the gateway cannot be constructed although nothing failed: " + why);
    finish(w, "after the constructor has thrown", others);
    if (!others) check_leaks("the constructor of the gateway has thrown");
    dsim::probe(9);
    if (!w.p.get("conserve")) fail("construction failed: " + why);
  }
  w.presetup_throws = w.p.get("throw_at") ? w.presetups + (int)w.p.get("throw_at") : -1;
  for (int i = 0; i < (int)w.colls.size(); i++) if (w.p.get("pre") >> i & 1) register_collectable(w, i);
}
void last_push(World& w) {
  Plan q;
  const int n = w.p.threads();
  q.add(n, w.p.get("final") & 1 ? PUSHADD : PUSH);
  if (w.p.get("final") & 2) { q.add(n, APUSH); q.add(n, WAIT); }
  if (w.p.get("final") & 4) q.add(n, DELI);
  size_t c0 = w.calls.size();
  Team f;
  f.go([&]() { perform(w, q.ops, n); });
  f.join();
  for (size_t i = c0; i < w.calls.size(); i++) {
    Call& c = *w.calls[i];
    bool good = c.known && (is_push(c.k) ? c.result == 200 : c.result > 200 && c.result < 300);
    if (!good) fail("a call after all faults have ceased does not succeed" + show(c));
  }
}
void run(const Plan& p) {
  const u64 fds0 = dsim::open_sim_fds();
  // gateways of one process share nothing
  std::vector<std::unique_ptr<World>> ws;
  for (int i = 0; i < (p.get("two") ? 2 : 1); i++) {
    ws.emplace_back(new World(p, i));
    ws[i]->srv.start();
  }
  for (size_t i = 0; i < ws.size(); i++) construct(*ws[i], i);
  Team t;
  for (int i = 0; i < p.threads(); i++) t.go([&, i]() { perform(*ws[0], p.ops, i, ws.size() > 1 ? ws[1].get() : nullptr); });
  t.join();
  if (p.get("timeout") && !p.get("stalls")) {
    u64 m = dsim::curl_stats().max_perform_ns;
    // (libcurl waits for the system's resolver, which cannot be interrupted)
    u64 dns = dsim::fault_count(dsim::F_DNS) ? 41000000000ull : 0;
    if (m > (u64)p.get("timeout") * 1000000000ull + 2000000000ull + dns) fail(fmt("a request took %.3f s although the timeout is %lld s", (double)m / 1e9, (long long)p.get("timeout")));
    if (m > (u64)p.get("timeout") * 1000000000ull - 10000000ull) dsim::probe(10);
  }
  // everything is well again: the next push is delivered completely
  dsim::clear_faults();
  for (auto& w : ws) { w->presetup_throws = -1; w->srv.well = true; }
  dsim::sleep_ns(100000000ull);
  for (size_t i = 0; i < ws.size(); i++) {
    World& w = *ws[i];
    last_push(w);
    judge(w);
    finish(w, "after the gateway was destroyed", ws.size() - 1 - i);
    if (i) dsim::probe(12);
  }
  for (auto& w : ws) {
    for (auto& c : w->colls) { if (c->obj && c->obj.use_count() != 1) fail("a collectable is kept alive after the gateway was destroyed"); API; c->obj.reset(); }
    if (!w->srv.finish(dsim::now() + 50000000000ull)) fail("a connection is left open after the gateway was destroyed");
  }
  dsim::sleep_ns(100000000000ull);
  if (u64 n = dsim::live_threads()) { char b[2048]; dsim::thread_block_report(b, sizeof b); fail(fmt("%llu thread(s) are left after the gateway was destroyed: %s", (unsigned long long)n, b)); }
  if (dsim::open_sim_fds() != fds0) fail(fmt("%llu socket(s) are left open after the gateway was destroyed", (unsigned long long)(dsim::open_sim_fds() - fds0)));
  check_leaks("the gateway was destroyed");
}

void world(Plan& p, Rng& r) {
  p.cfg["world_seed"] = (i64)(r.next() >> 20);
  p.cfg["beh_seed"] = (i64)(r.next() >> 40);
  p.cfg["variant"] = (i64)r.n(3);
  p.cfg["scheme"] = r.pct(50);
  p.cfg["nasty"] = r.pct(50);
  p.cfg["nlabels"] = (i64)r.n(4);
  p.cfg["dns"] = r.pct(25);
  p.cfg["auth"] = r.pct(50) ? 0 : 1 + (i64)r.n(4);
  p.cfg["ncoll"] = 1 + (i64)r.n(4);
  p.cfg["empties"] = r.pct(20) ? 40 : 0;
  p.cfg["maxsize"] = r.of<i64>({3, 30, 200});
  p.cfg["timeout"] = r.pct(60) ? 0 : r.of<i64>({1, 2, 5});
  p.cfg["acts"] = r.pct(40) ? 1 << KEEP : (i64)(r.next() & ((1u << NGOOD) - 1)) | 1 << KEEP;
  i64 badmask = 0;
  for (int i = 0; i < 3; i++) badmask |= 1ll << (ERR4 + r.n(NACT - ERR4));
  if (r.pct(30)) badmask = (1ll << NACT) - (1ll << ERR4);
  badmask |= 1ll << (r.pct(50) ? ERR4 : HANG_UP);
  p.cfg["acts"] |= badmask;
  p.cfg["bad"] = r.of<i64>({0, 0, 10, 30, 60});
  if (r.pct(40)) p.cfg["lag"] = r.of<i64>({100000, 5000000, 300000000});
  p.cfg["chatty"] = r.pct(30);
  // a Pushgateway that takes minutes
  if (!p.get("timeout") && r.pct(8)) p.cfg["lag"] = 400000000000;
  p.cfg["pre"] = (i64)(r.pct(60) ? 255 : r.n(16));
  p.cfg["final"] = (i64)r.n(8);
  p.cfg["max_sync"] = 3000000;
  p.cfg["net_window"] = r.of<i64>({65536, 65536, 3000, 300000});
  if (r.pct(40)) set_fault(p, dsim::F_NET_SHORT_SEND, 300000, 40);
  if (r.pct(40)) set_fault(p, dsim::F_NET_SHORT_RECV, 200000, 40);
  if (r.pct(60)) set_fault(p, dsim::F_NET_DELAY, 300000, 1000);
}
void outages(Plan& p, Rng& r) {
  if (r.pct(50)) set_fault(p, dsim::F_NET_RST, 60000, 4);
  if (r.pct(30)) set_fault(p, dsim::F_NET_REFUSE, 200000, 4);
  if (r.pct(30)) set_fault(p, dsim::F_NET_BLACKHOLE, 200000, 2);
  if (p.get("dns") && r.pct(60)) set_fault(p, dsim::F_DNS, 400000, 4);
  if (r.pct(30)) { set_fault(p, dsim::F_NET_STALL, 50000, 4); p.cfg["net_stall"] = r.of<i64>({300000000, 3000000000, 30000000000}); }
  if (r.pct(20)) set_fault(p, dsim::F_WALL_JUMP, 20000, 3);
}
void long_bodies(Plan& p, Rng& r) { if (r.pct(7)) { p.cfg["long"] = r.in(1, r.of<i64>({20000, 70000, 200000})); p.cfg["max_plain"] = 1000000000; p.cfg["race"] = 0; p.cfg["timeout"] = r.pct(50) ? 0 : 20; } }
int calls(Plan& p, Rng& r, int th, int n, const std::vector<int>& kinds) {
  int pend = 0, threads = 0;
  for (int i = 0; i < n; i++) {
    int k = r.of(kinds);
    if (i) p.ops.back().y = p.get("two") && r.pct(50);
    if (k == APUSH || k == APUSHADD || k == ADEL || k == ADELI) {
      threads += k == ADEL || k == ADELI ? 1 : (int)p.get("ncoll") + 1;
      if (threads > 14) { p.add(th, WAIT, 0); continue; }
      pend++;
    }
    if (k == WAIT && pend) { p.add(th, r.pct(15) ? FORGET : WAIT, (i64)r.n(3)); pend--; continue; }
    switch (k) {
      case HEADER: p.add(th, k, (i64)r.n(10), r.pct(50)); break;
      case REGC: case DROP: p.add(th, k, (i64)r.n((u64)p.get("ncoll"))); break;
      case PAUSE: p.add(th, k, (i64)r.n(r.of<u64>({100000, 10000000, 2000000000}))); break;
      default: p.add(th, k);
    }
  }
  if (n) p.ops.back().y = p.get("two") && r.pct(50);
  return threads;
}
void gen_push(Plan& p, Rng& r) {
  world(p, r);
  p.cfg["two"] = r.pct(15);
  if (r.n(300) == 0) { p.cfg["huge"] = 1; p.cfg["max_plain"] = 1000000000; p.cfg["race"] = 0; p.cfg["timeout"] = r.pct(50) ? 0 : 20; }
  long_bodies(p, r);
  int n = 1 + (int)r.n(3);
  calls(p, r, 0, 2 + (int)r.n(5), {PUSH, PUSHADD, PUSH, PUSHADD, HEADER, REGC, PAUSE});
  for (int i = 1; i < n; i++) calls(p, r, i, 1 + (int)r.n(4), {REGC, REGC, DROP, PAUSE, HEADER});
  if (r.pct(15)) set_fault(p, dsim::F_NET_RST, 30000, 2);
  if (r.pct(15)) set_fault(p, dsim::F_NET_STALL, 20000, 3);
  if (r.pct(20)) { set_fault(p, dsim::F_STALL, 3000, 5); p.cfg["stall_max"] = 200000000; p.cfg["stalls"] = 1; }
}
void gen_async(Plan& p, Rng& r) {
  world(p, r);
  p.cfg["two"] = r.pct(15);
  long_bodies(p, r);
  int n = 1 + (int)r.n(3);
  for (int i = 0; i < n; i++) calls(p, r, i, 1 + (int)r.n(4), {APUSH, APUSHADD, APUSH, ADEL, ADELI, WAIT, PAUSE, REGC, DROP, HEADER});
  if (r.pct(15)) set_fault(p, dsim::F_NET_RST, 30000, 2);
  if (r.pct(15)) set_fault(p, dsim::F_NET_REFUSE, 100000, 2);
}
void gen_calls(Plan& p, Rng& r) {
  world(p, r);
  p.cfg["two"] = r.pct(40);
  long_bodies(p, r);
  int n = 2 + (int)r.n(3);
  for (int i = 0; i < n; i++) calls(p, r, i, 1 + (int)r.n(5), {PUSH, PUSHADD, DEL, DELI, HEADER, REGC, APUSH, ADEL, ADELI, DROP, PAUSE, WAIT, HEADER, DEL});
  if (r.pct(30)) set_fault(p, dsim::F_CURL_SLIST, 300000, 3);
  p.cfg["conserve"] = p.cfg["f17"] > 0;
  if (r.pct(15)) set_fault(p, dsim::F_NET_RST, 30000, 2);
}
void gen_outage(Plan& p, Rng& r) {
  world(p, r);
  p.cfg["two"] = r.pct(15);
  if (r.pct(70)) p.cfg["timeout"] = r.of<i64>({1, 2, 5, 20});
  if (r.pct(50)) p.cfg["dns"] = 1;
  p.cfg["bad"] = r.of<i64>({0, 30, 60, 100});
  int n = 1 + (int)r.n(3);
  for (int i = 0; i < n; i++) calls(p, r, i, 1 + (int)r.n(4), {PUSH, PUSHADD, DEL, DELI, APUSH, ADEL, PAUSE, WAIT});
  outages(p, r);
}
void gen_conserve(Plan& p, Rng& r) {
  world(p, r);
  p.cfg["two"] = r.pct(15);
  p.cfg["conserve"] = 1;
  if (r.pct(50)) set_fault(p, dsim::F_CURL_INIT, 400000, 1 + (i64)r.n(3));
  if (r.pct(50)) set_fault(p, dsim::F_CURL_SLIST, 400000, 1 + (i64)r.n(3));
  if (r.pct(30)) set_fault(p, dsim::F_CURL_OPT, 60000, 1 + (i64)r.n(3));
  if (r.pct(40)) set_fault(p, dsim::F_ALLOC, r.of<i64>({2000, 20000, 100000}), 1 + (i64)r.n(3));
  if (r.pct(40)) set_fault(p, dsim::F_THREAD, 200000, 1 + (i64)r.n(3));
  if (p.get("variant") && r.pct(30)) p.cfg["throw_ctor"] = 1;
  if (p.get("variant") && r.pct(30)) p.cfg["throw_at"] = 1 + (i64)r.n(4);
  int n = 1 + (int)r.n(2);
  for (int i = 0; i < n; i++) calls(p, r, i, 1 + (int)r.n(5), {PUSH, PUSHADD, DEL, DELI, APUSH, ADEL, ADELI, HEADER, REGC, WAIT});
  if (r.pct(30)) outages(p, r);
}
const char* const probes[] = {"-", "push_succeeded", "several_collectables_pushed", "push_refused_by_status", "push_failed", "collectable_destroyed", "header_refused", "push_threw", "delete_answered", "construction_failed", "timeout_reached", "future_ready_by_itself", "second_gateway", nullptr};
#define REAL_ "Gateway, CurlWrapper, label encoder, TextSerializer (instrumented C++), libcurl 8.5 (unmodified shared library)"
#define STUB_ "Pushgateway, TCP, name resolution, clocks, scheduler, threads, mutexes, allocator, collectables"
Reg r1({"push", gen_push, run, probes, REAL_, STUB_});
Reg r2({"async", gen_async, run, probes, REAL_, STUB_});
Reg r3({"calls", gen_calls, run, probes, REAL_, STUB_});
Reg r4({"outage", gen_outage, run, probes, REAL_, STUB_});
Reg r5({"conserve", gen_conserve, run, probes, REAL_, STUB_});
}  // namespace
}  // namespace push
