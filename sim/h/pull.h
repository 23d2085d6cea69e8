// A simulated deployment of the exposer: registries, clients, requests.
#pragma once
#include "expo.h"
#include "http.h"
#include <CivetServer.h>
#include <prometheus/counter.h>
#include <prometheus/exposer.h>
#include <prometheus/family.h>
#include <prometheus/gauge.h>
#include <prometheus/histogram.h>
#include <prometheus/info.h>
#include <prometheus/registry.h>
#include <prometheus/summary.h>

namespace pull {
using namespace h;
using namespace prometheus;
enum { PORT = 9999 };
const char* const uris[] = {"/metrics", "/other", "/deep/er"};
enum { NURI = 3 };
// URIs that are alike; "nested": civetweb takes a handler's URI for a pattern that matches by prefix and gives a request for the longer one
// to the handler of the shorter one as long as the longer one is not served itself
struct UriSet { const char* u[NURI]; bool nested; };
const UriSet uri_sets[] = {{{"/metrics", "/other", "/deep/er"}, false}, {{"/metrics", "/metrics/", "/metrics/deep"}, true}, {{"/a", "/a/b", "/a/b/c"}, true},
                           {{"/", "/metrics", "/Metrics"}, true}, {{"/metrics", "/metric", "/metricsx"}, true}, {{"/x/metrics", "/metrics", "/y/metrics"}, false}};
enum { NSET = 6 };

// harness code that the library calls back: not judged, not a preemption point
struct Outside { bool in = dsim::api_depth() > 0; Outside() { if (in) dsim::api_exit(); } ~Outside() { if (in) dsim::api_enter(); } };

inline Exposer* start(const Plan& p) {
  std::vector<std::string> opt{"listening_ports", "127.0.0.1:9999", "num_threads", std::to_string(p.get("workers", 2))};
  if (p.get("keep")) { opt.push_back("enable_keep_alive"); opt.push_back("yes"); }
  if (p.get("rq_timeout")) { opt.push_back("request_timeout_ms"); opt.push_back(std::to_string(p.get("rq_timeout"))); }
  if (p.get("simple_ctor")) { API; return new Exposer("127.0.0.1:9999", (size_t)p.get("workers", 2)); }
  API;
  return new Exposer(opt);
}
struct GetOpt {
  bool gzip = false, keep = false;
  size_t piece = 0; u64 piece_pause = 0;
  size_t chunk = 0; u64 chunk_pause = 0;
  int port = PORT;
  u64 timeout = 300000000000ull;
  std::string extra;
  std::string accept;
  const char* method = "GET";
};
inline std::string request(const std::string& uri, const GetOpt& o) {
  std::string r = std::string(o.method) + " " + uri + " HTTP/1.1\r\nHost: localhost\r\n";
  if (o.accept.size()) r += "Accept-Encoding: " + o.accept + "\r\n";
  else if (o.gzip) r += "Accept-Encoding: gzip\r\n";
  r += o.extra;
  r += o.keep ? "Connection: keep-alive\r\n" : "Connection: close\r\n";
  return r + "\r\n";
}
struct Kept { int fd = -1; u64 since = 0; ~Kept() { if (fd >= 0) close(fd); } };
// One request, on a connection of its own or on one kept open.  A server may
// close an idle connection at any time, and civetweb gives a request 500 ms on
// a connection it keeps alive (400 "Malformed message" after that): the client
// then asks again on a new connection.
inline http::Resp get(const std::string& uri, const GetOpt& o, Kept* kept = nullptr) {
  http::Resp r;
  const u64 jumps = dsim::wall_jumps();
  r.inv = dsim::ev(); r.t_inv = dsim::now(); r.steady_inv = dsim::steady_ns();
  int fd = kept ? kept->fd : -1;
  if (fd >= 0) {
    r.connected = true;
    r.sent = http::send_all(fd, request(uri, o), o.piece, o.piece_pause);
    if (r.sent) http::receive(fd, r, o.chunk, o.chunk_pause, ~0ull, o.keep);
    bool closed = r.raw.empty() && (!r.sent || r.eof || r.error);
    bool late = r.head && r.status == 400 && dsim::now() - kept->since > 400000000ull;
    if (closed || late) {
      close(fd); fd = kept->fd = -1;
      http::Resp q;
      q.inv = r.inv; q.t_inv = r.t_inv; q.steady_inv = r.steady_inv; q.again = true; q.maybe = !late && !r.eof && r.sent;
      r = q;
    }
  }
  if (fd < 0 && (fd = http::dial(o.port, o.timeout)) >= 0) {
    r.connected = true;
    r.sent = http::send_all(fd, request(uri, o), o.piece, o.piece_pause);
    if (r.sent) http::receive(fd, r, o.chunk, o.chunk_pause, ~0ull, o.keep);
  }
  r.jumps = dsim::wall_jumps() - jumps;
  r.ret = dsim::ev(); r.t_ret = dsim::now(); r.steady_ret = dsim::steady_ns();
  if (fd >= 0) {
    if (kept && o.keep && r.complete() && !r.eof && !r.error && http::lower(http::header(r.hs, "connection")) != "close") { kept->fd = fd; kept->since = r.t_inv; }
    else { close(fd); if (kept) kept->fd = -1; }
  }
  return r;
}
inline GetOpt options(const Op& o) {
  GetOpt g;
  u64 b = (u64)o.b;
  g.gzip = b & 1;
  switch (b >> 1 & 7) { case 1: g.piece = 1; break; case 2: g.piece = 3; g.piece_pause = 1000000; break; case 3: g.piece = 20; g.piece_pause = 100000000; break; }
  switch (b >> 4 & 7) { case 1: g.chunk = 1; break; case 2: g.chunk = 100; g.chunk_pause = 1000000; break; case 3: g.chunk = 4096; g.chunk_pause = 30000000; break; case 4: g.chunk = 65536; break; }
  g.keep = b >> 7 & 1;
  if (g.gzip) switch (b >> 8 & 7) { case 1: g.accept = "deflate, gzip"; break; case 2: g.accept = "gzip, deflate, br"; break; case 3: g.accept = "gzip;q=1.0"; break; }
  else switch (b >> 8 & 7) { case 1: g.accept = "identity"; break; case 2: g.accept = "deflate"; break; case 3: g.accept = "br, zstd"; break; case 4: g.accept = "magic, gz"; break; case 5: g.accept = "zip"; break; case 6: g.accept = "gz, br"; break; case 7: g.accept = "g"; break; }
  return g;
}
// What is wrong with a complete answer to a scrape ("" = nothing); its text
inline std::string examine(const http::Resp& r, const GetOpt& o, std::string& text) {
  if (!r.bad.empty()) return r.bad;
  if (r.status != 200) return fmt("status %d instead of 200", r.status);
  if (http::header(r.hs, "content-type").compare(0, 10, "text/plain")) return "Content-Type is " + http::header(r.hs, "content-type");
  if (http::count_header(r.hs, "content-type") != 1) return "more than one Content-Type";
  if (!r.has_len) return "no Content-Length";
  if (r.body.size() != r.len) return fmt("Content-Length %llu for a body of %zu bytes", (unsigned long long)r.len, r.body.size());
  std::string ce = http::lower(http::header(r.hs, "content-encoding"));
  if (http::count_header(r.hs, "content-encoding") > 1) return "more than one Content-Encoding";
  if (ce.empty() || ce == "identity") text = r.body;
  else if (ce == "gzip") {
    if (!o.gzip) return "Content-Encoding gzip for a client that does not accept it";
    if (!http::gunzip(r.body, text)) return "the body is not a complete gzip stream";
  } else return "Content-Encoding " + ce;
  return "";
}
struct Text {
  std::vector<expo::Fam> fams;
  const expo::Fam* find(const std::string& n) const { for (auto& f : fams) if (f.name == n) return &f; return nullptr; }
  // the one sample of that name (and nothing else about it)
  bool value(const std::string& fam, const std::string& sample, double& v) const {
    const expo::Fam* f = find(fam);
    if (!f) return false;
    for (auto& s : f->s) if (s.name == sample) return expo::number(s.raw, v);
    return false;
  }
};
const char* const own_families[] = {"exposer_transferred_bytes_total", "exposer_scrapes_total", "exposer_request_latencies"};
inline bool own_family(const std::string& n) { for (auto x : own_families) if (n == x) return true; return false; }
inline std::string parse(const std::string& text, Text& t) {
  std::string e;
  if (!expo::parse(text, t.fams, e)) return "the body is no valid exposition: " + e;
  for (auto x : own_families) if (!t.find(x)) return std::string("the exposition lacks ") + x;
  return "";
}
// Did faults or a slow client excuse an incomplete answer?  (civetweb measures
// its timeouts with the wall clock.)
inline bool excused(const http::Resp& r, u64 patience = 10000000000ull) { return r.jumps || r.error || !r.connected || !r.sent || r.t_ret - r.t_inv > patience; }
inline std::string show(const http::Resp& r) {
  return fmt(" [%llu,%llu] status %d, %zu of %llu body bytes%s%s: %s", (unsigned long long)r.inv, (unsigned long long)r.ret, r.status, r.body.size(), (unsigned long long)r.len, r.eof ? ", closed" : "", r.error ? ", error" : "",
             (expo::excerpt(r.raw) + " ... " + expo::excerpt(r.raw.substr(r.raw.size() > 300 ? r.raw.size() - 300 : 0))).c_str());
}
void check_gone(const char* when);
}  // namespace pull
