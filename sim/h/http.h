// HTTP/1.1 client and server sides of the simulated peers, written on plain
// sockets and independent of civetweb and libcurl.
#pragma once
#include "h.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <zlib.h>

namespace http {
using namespace h;
typedef std::vector<std::pair<std::string, std::string>> Headers;
inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline std::string trim(const std::string& s) {
  size_t a = 0, b = s.size();
  while (a < b && (s[a] == ' ' || s[a] == '\t')) a++;
  while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t')) b--;
  return s.substr(a, b - a);
}
inline int count_header(const Headers& hs, const char* n) { int k = 0; for (auto& x : hs) if (lower(x.first) == n) k++; return k; }
inline std::string header(const Headers& hs, const char* n) { for (auto& x : hs) if (lower(x.first) == n) return x.second; return ""; }
// the lines after the first one, up to the empty line; false: malformed
inline bool parse_headers(const std::string& s, Headers& out) {
  size_t pos = 0;
  while (pos < s.size()) {
    size_t e = s.find("\r\n", pos);
    if (e == std::string::npos) return false;
    std::string l = s.substr(pos, e - pos);
    pos = e + 2;
    size_t c = l.find(':');
    if (c == std::string::npos || c == 0) return false;
    for (size_t i = 0; i < c; i++) if (l[i] <= ' ' || l[i] >= 127) return false;
    for (char ch : l) if (ch == '\n' || ch == '\r') return false;
    out.push_back({l.substr(0, c), trim(l.substr(c + 1))});
  }
  return true;
}

struct Resp {
  bool connected = false, sent = false;
  bool head = false;          // status line and headers are complete
  bool eof = false;           // orderly end
  bool again = false;         // tried first on a kept connection that was unusable
  bool maybe = false;         // and that request may have been served all the same
  bool error = false;         // reset, timeout, refused
  int status = 0;
  std::string proto, reason, raw, body;
  Headers hs;
  bool has_len = false;
  u64 len = 0;
  std::string bad;            // malformed
  size_t text_size = 0;       // uncompressed
  u64 jumps = 0;              // steps of the wall clock meanwhile
  u64 inv = 0, ret = 0, t_inv = 0, t_ret = 0, steady_inv = 0, steady_ret = 0;
  bool complete() const { return head && has_len && body.size() == len && bad.empty(); }
};

inline int dial(int port, u64 timeout_ns) {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  if (fd < 0) return -1;
  struct timeval tv;
  tv.tv_sec = (long)(timeout_ns / 1000000000ull); tv.tv_usec = (long)(timeout_ns % 1000000000ull / 1000);
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons((unsigned short)port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (connect(fd, (struct sockaddr*)&a, sizeof a)) { close(fd); return -1; }
  return fd;
}
inline bool send_all(int fd, const std::string& s, size_t piece = 0, u64 pause = 0) {
  size_t o = 0;
  while (o < s.size()) {
    size_t n = s.size() - o;
    if (piece && n > piece) n = piece;
    ssize_t k = send(fd, s.data() + o, n, MSG_NOSIGNAL);
    if (k <= 0) return false;
    o += (size_t)k;
    if (pause && o < s.size()) dsim::sleep_ns(pause);
  }
  return true;
}
inline void parse_response(Resp& r) {
  if (r.head) { return; }
  size_t e = r.raw.find("\r\n\r\n");
  if (e == std::string::npos) return;
  r.head = true;
  size_t l = r.raw.find("\r\n");
  std::string line = r.raw.substr(0, l);
  if (line.compare(0, 5, "HTTP/") || line.size() < 12 || line[8] != ' ') { r.bad = "status line: " + line; return; }
  r.proto = line.substr(0, 8);
  r.status = atoi(line.substr(9, 3).c_str());
  r.reason = line.size() > 13 ? line.substr(13) : "";
  if (!parse_headers(r.raw.substr(l + 2, e + 2 - l - 2), r.hs)) { r.bad = "malformed header in: " + r.raw.substr(0, e); return; }
  if (count_header(r.hs, "content-length") > 1) { r.bad = "more than one Content-Length"; return; }
  std::string cl = header(r.hs, "content-length");
  if (count_header(r.hs, "content-length") == 1) {
    char* end;
    r.len = strtoull(cl.c_str(), &end, 10);
    if (cl.empty() || *end || cl[0] < '0' || cl[0] > '9') { r.bad = "Content-Length: " + cl; return; }
    r.has_len = true;
  }
}
// Reads one response.  stop_at: give up (and return) after that many bytes.
// keep: return as soon as the announced body has arrived.
inline void receive(int fd, Resp& r, size_t chunk, u64 pause, size_t stop_at, bool keep) {
  std::vector<char> b(chunk ? chunk : 4096);
  size_t off = 0;
  while (true) {
    if (r.head && keep && r.has_len && r.raw.size() - off >= r.len) break;
    if (r.head && !r.bad.empty()) break;
    if (r.raw.size() >= stop_at) break;
    ssize_t k = recv(fd, b.data(), std::min(b.size(), stop_at - r.raw.size()), 0);
    if (k == 0) { r.eof = true; break; }
    if (k < 0) { r.error = true; break; }
    r.raw.append(b.data(), (size_t)k);
    if (!r.head) { parse_response(r); if (r.head) off = r.raw.find("\r\n\r\n") + 4; }
    if (pause) dsim::sleep_ns(pause);
  }
  if (r.head) r.body = r.raw.substr(r.raw.find("\r\n\r\n") + 4);
}
inline bool gunzip(const std::string& in, std::string& out) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, 16 + MAX_WBITS) != Z_OK) return false;
  z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size();
  out.clear();
  char buf[16384];
  int rc;
  do {
    z.next_out = (Bytef*)buf; z.avail_out = sizeof buf;
    rc = inflate(&z, Z_NO_FLUSH);
    out.append(buf, sizeof buf - z.avail_out);
  } while (rc == Z_OK && (z.avail_in || z.avail_out == 0));
  bool ok = rc == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}
}  // namespace http
