#pragma once
#include "pull.h"
namespace pull {
// A Pushgateway that accepts everything.
struct Peer {
  int lfd, port;
  volatile bool stop = false;
  std::function<void(const std::string&, const std::string&)> on;   // head and body of each request
  Team t, conns;
  explicit Peer(int pt) : port(pt) {
    lfd = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons((unsigned short)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(lfd, (struct sockaddr*)&a, sizeof a) || listen(lfd, 20)) fail("the simulated Pushgateway cannot listen");
    t.go([this]() {
      for (;;) {
        int fd = accept(lfd, nullptr, nullptr);
        if (fd < 0) continue;
        if (stop) { close(fd); break; }
        conns.go([this, fd]() { serve(fd); close(fd); });
      }
      close(lfd);
      conns.join();
    });
  }
  void serve(int fd) {
    std::string in;
    char b[8192];
    for (;;) {
      size_t e = in.find("\r\n\r\n"), need = 0;
      if (e != std::string::npos) {
        http::Headers hs;
        size_t l = in.find("\r\n");
        if (!http::parse_headers(in.substr(l + 2, e + 2 - l - 2), hs)) fail("malformed request: " + in);
        need = e + 4 + strtoull(http::header(hs, "content-length").c_str(), nullptr, 10);
      }
      if (e == std::string::npos || in.size() < need) {
        ssize_t k = recv(fd, b, sizeof b, 0);
        if (k <= 0) return;
        in.append(b, (size_t)k);
        continue;
      }
      if (on) on(in.substr(0, e + 2), in.substr(e + 4, need - e - 4));
      in.erase(0, need);
      if (!http::send_all(fd, "HTTP/1.1 202 Accepted\r\nContent-Length: 0\r\n\r\n")) return;
    }
  }
  void end() { stop = true; int fd = http::dial(port, 1000000000ull); t.join(); if (fd >= 0) close(fd); }
};
}  // namespace pull
