// dsim runtime: simulated TCP sockets, pipes and name resolution.
#include "rt_int.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

namespace dsim {

enum { FD0 = 500, NFD = 500 };
enum { SK_FREE = 0, SK_NEW, SK_LISTEN, SK_STREAM };
enum { SEG_DATA, SEG_FIN, SEG_RST };
struct Seg { u64 at; u32 len, off; int kind; Seg* next; char data[]; };
struct Sock {
  int type;
  bool nonblock, bound, local;       // local: pipe / socketpair
  int port, rport;
  u64 rcvtimeo, sndtimeo;            // 0 = none
  Sock* peer;                        // nullptr once the other end is gone
  Seg *head, *tail;
  u64 last_at;
  u64 inq;                           // unread bytes
  bool connecting, connected;
  bool conn_fail;
  u64 conn_at;
  int err;                           // pending SO_ERROR
  bool reset;                        // RST was consumed / sent
  bool wr_shut, rd_shut, eof;
  bool fd_open;
  bool idle;                         // accepted and not looked at since
  // listener
  Sock* backlog[128]; u64 arrive[128]; int nback;
};

static Sock* fds[NFD];
static int next_port;

void net_reset() { next_port = 20000; }

static Sock* get(int fd) {
  if (fd < FD0 || fd >= FD0 + NFD) return nullptr;
  return fds[fd - FD0];
}
static bool is_sim_fd(int fd) { return fd >= FD0 && fd < FD0 + NFD; }
static Sock* new_sock() {
  Sock* s = (Sock*)calloc(1, sizeof(Sock));
  s->type = SK_NEW;
  return s;
}
static int alloc_fd(Sock* s) {
  for (int i = 0; i < NFD; i++) if (!fds[i]) { fds[i] = s; s->fd_open = true; return FD0 + i; }
  errno = EMFILE;
  return -1;
}
u64 open_sim_fds() { u64 n = 0; for (int i = 0; i < NFD; i++) if (fds[i] && !fds[i]->idle) n++; return n; }
u64 open_idle_fds() { u64 n = 0; for (int i = 0; i < NFD; i++) if (fds[i] && fds[i]->idle) n++; return n; }
static Sock* listener(int port) {
  for (int i = 0; i < NFD; i++) if (fds[i] && fds[i]->type == SK_LISTEN && fds[i]->port == port) return fds[i];
  return nullptr;
}
bool net_port_bound(int port) { return listener(port) != nullptr; }
u64 net_accept_backlog(int port) { Sock* l = listener(port); return l ? (u64)l->nback : 0; }

void wake_sock(const void* s) {
  for (int i = 0; i < G.nt; i++) {
    Thr* t = &G.t[i];
    if (t->state != T_BLOCKED || t->why != B_SOCK) continue;
    if (t->socks.n < 0) { t->state = T_READY; t->obj = nullptr; continue; }
    for (int k = 0; k < t->socks.n; k++)
      if (t->socks.s[k] == s) { t->state = T_READY; t->obj = nullptr; break; }
  }
}
static bool wait_sock(Sock* s, u64 deadline) {
  me->socks.n = 1; me->socks.s[0] = s;
  return block(B_SOCK, (void*)s, deadline);
}

static u64 latency(Sock* s) {
  if (s->local) return 0;
  u64 l = G.cfg.net_base_ns;
  u64 v = fault_val(F_NET_DELAY, 1, G.cfg.net_jitter_ns ? G.cfg.net_jitter_ns : 1);
  l += v;
  v = fault_val(F_NET_STALL, G.cfg.net_stall_ns / 100 + 1, G.cfg.net_stall_ns + 1);
  l += v;
  return l;
}
static void enqueue(Sock* to, int kind, const void* data, size_t n, u64 at) {
  if (at < to->last_at) at = to->last_at;
  to->last_at = at;
  Seg* g = (Seg*)malloc(sizeof(Seg) + n);
  g->at = at; g->len = n; g->off = 0; g->kind = kind; g->next = nullptr;
  if (n) memcpy(g->data, data, n);
  if (to->tail) to->tail->next = g; else to->head = g;
  to->tail = g;
  if (kind == SEG_DATA) to->inq += n;
  wake_sock(to);
}
static void pop(Sock* s) {
  Seg* g = s->head;
  s->head = g->next;
  if (!s->head) s->tail = nullptr;
  free(g);
}
static void drop_rx(Sock* s) { while (s->head) pop(s); s->inq = 0; }
static bool rst_arrived(Sock* s) {
  for (Seg* g = s->head; g; g = g->next) if (g->kind == SEG_RST && g->at <= G.now) return true;
  return false;
}
static u64 window(Sock* s) { return s->local ? 65536 : (G.cfg.net_window ? G.cfg.net_window : 65536); }

// connection reset, seen by this end now and by the peer after the latency
static void do_reset(Sock* s) {
  Sock* p = s->peer;
  drop_rx(s);
  s->last_at = 0;
  enqueue(s, SEG_RST, nullptr, 0, G.now);
  if (p) {
    enqueue(p, SEG_RST, nullptr, 0, G.now + G.cfg.net_base_ns);
    p->peer = nullptr;
    s->peer = nullptr;
  }
}

static ssize_t sk_recv(Sock* s, char* buf, size_t n, int flags) {
  sync_point(30);
  s->idle = false;
  if (s->type != SK_STREAM) { errno = ENOTCONN; return -1; }
  u64 dl = s->rcvtimeo ? G.now + s->rcvtimeo : ~0ull;
  for (;;) {
    if (s->connecting) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    }
    if (s->eof || s->rd_shut) return 0;
    if (s->reset && !s->head) { errno = ECONNRESET; return -1; }
    Seg* g = s->head;
    if (g && g->at <= G.now) {
      if (g->kind == SEG_FIN) { if (!(flags & MSG_PEEK)) { s->eof = true; pop(s); } return 0; }
      if (g->kind == SEG_RST) { s->reset = true; pop(s); errno = ECONNRESET; return -1; }
      size_t k = 0, lim = n;
      if (n > 1 && !s->local) { u64 v = fault_val(F_NET_SHORT_RECV, 1, n < 64 ? n : 64); if (v) lim = v; }
      while (k < lim && (g = s->head) && g->at <= G.now && g->kind == SEG_DATA) {
        size_t c = g->len - g->off;
        if (c > lim - k) c = lim - k;
        memcpy(buf + k, g->data + g->off, c);
        k += c;
        if (flags & MSG_PEEK) break;
        g->off += c; s->inq -= c;
        if (g->off == g->len) pop(s);
      }
      if (s->peer) wake_sock(s->peer);
      return k;
    }
    if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
    u64 w = dl;
    if (g && g->at < w) w = g->at;
    wait_sock(s, w);
    if (G.now >= dl && !(s->head && s->head->at <= G.now)) { errno = EAGAIN; return -1; }
  }
}
static ssize_t sk_send(Sock* s, const char* buf, size_t n, int flags) {
  sync_point(31);
  s->idle = false;
  if (s->type != SK_STREAM) { errno = ENOTCONN; return -1; }
  u64 dl = s->sndtimeo ? G.now + s->sndtimeo : ~0ull;
  for (;;) {
    if (s->connecting) {
      if (s->nonblock) { errno = EAGAIN; return -1; }
      wait_sock(s, s->conn_at);
      continue;
    }
    if (s->wr_shut) { errno = EPIPE; return -1; }
    if (s->reset || rst_arrived(s)) { errno = s->reset ? EPIPE : ECONNRESET; return -1; }
    Sock* p = s->peer;
    if (!s->local && fault(F_NET_RST)) { do_reset(s); errno = ECONNRESET; s->reset = true; drop_rx(s); return -1; }
    if (!p || !p->fd_open) {
      // the other side has closed: data is lost, a reset comes back
      if (s->local) { errno = EPIPE; return -1; }
      bool pending = false;
      for (Seg* g = s->head; g; g = g->next) if (g->kind == SEG_RST) pending = true;
      if (!pending) enqueue(s, SEG_RST, nullptr, 0, G.now + 2 * G.cfg.net_base_ns);
      return n;
    }
    u64 w = window(s), used = p->inq;
    if (used >= w) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
      wait_sock(s, dl);
      if (G.now >= dl) { errno = EAGAIN; return -1; }
      continue;
    }
    size_t k = n;
    if (k > w - used) k = w - used;
    if (k > 1 && !s->local) { u64 v = fault_val(F_NET_SHORT_SEND, 1, k - 1); if (v) k = v; }
    enqueue(p, SEG_DATA, buf, k, G.now + latency(s));
    return k;
  }
}
static void sk_close(Sock* s) {
  s->fd_open = false;
  if (s->type == SK_LISTEN) {
    for (int i = 0; i < s->nback; i++) {
      Sock* c = s->backlog[i];
      if (c->peer) { enqueue(c->peer, SEG_RST, nullptr, 0, G.now + G.cfg.net_base_ns); c->peer->peer = nullptr; c->peer = nullptr; }
      c->fd_open = false;
    }
    s->nback = 0;
  } else if (s->type == SK_STREAM) {
    Sock* p = s->peer;
    if (p) {
      u64 at = G.now + (s->local ? 0 : G.cfg.net_base_ns);
      if (s->inq && !s->local) enqueue(p, SEG_RST, nullptr, 0, at);
      else if (!s->wr_shut) enqueue(p, SEG_FIN, nullptr, 0, at);
      p->peer = nullptr;
      s->peer = nullptr;
      wake_sock(p);
    }
  }
  s->type = SK_FREE;
  wake_sock(s);
  // the Sock itself stays allocated: other threads may still look at it
}
void net_reset_conn(int fd) {
  Sock* s = get(fd);
  if (!s) return;
  sync_point(32);
  if (s->type == SK_STREAM && s->peer) do_reset(s);
  fds[fd - FD0] = nullptr;
  sk_close(s);
}

static int readiness(Sock* s, int ev, u64* next) {
  int r = 0;
  if (s->type == SK_LISTEN) {
    for (int i = 0; i < s->nback; i++) {
      if (s->arrive[i] <= G.now) { r |= POLLIN; break; }
      if (s->arrive[i] < *next) *next = s->arrive[i];
    }
    return r & ev;
  }
  if (s->type != SK_STREAM) return POLLHUP | (ev & POLLOUT);
  if (s->connecting) {
    if (s->conn_at > G.now) { if (s->conn_at < *next) *next = s->conn_at; return 0; }
    s->connecting = false;
    if (s->conn_fail) { s->err = ECONNREFUSED; s->reset = true; }
    else s->connected = true;
  }
  if (s->reset) return (POLLIN & ev) | (POLLOUT & ev) | POLLHUP | POLLERR;
  Seg* g = s->head;
  if (s->eof || s->rd_shut) r |= POLLIN | POLLRDHUP;
  if (g) {
    if (g->at <= G.now) r |= POLLIN; else if (g->at < *next) *next = g->at;
    if (rst_arrived(s)) r |= POLLHUP | POLLERR | POLLIN;
    if (g->kind == SEG_FIN && g->at <= G.now) r |= POLLRDHUP;
  }
  if (!s->peer && s->local) r |= POLLHUP;
  if (!s->peer || !s->peer->fd_open || s->peer->inq < window(s)) r |= POLLOUT;
  return r & (ev | POLLHUP | POLLERR);
}

template <class F> static F real(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
static void set_addr(struct sockaddr* a, socklen_t* l, int port) {
  struct sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET; in.sin_port = htons(port); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t k = *l < sizeof in ? *l : sizeof in;
  memcpy(a, &in, k);
  *l = sizeof in;
}

}  // namespace dsim
using namespace dsim;

EXPORT int socket(int dom, int type, int proto) {
  static int (*r)(int, int, int);
  if (!sim()) return real(r, "socket")(dom, type, proto);
  if (dom != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  sync_point(33);
  Sock* s = new_sock();
  s->nonblock = type & SOCK_NONBLOCK;
  return alloc_fd(s);
}
EXPORT int socketpair(int dom, int type, int proto, int sv[2]) {
  static int (*r)(int, int, int, int*);
  if (!sim()) return real(r, "socketpair")(dom, type, proto, sv);
  Sock *a = new_sock(), *b = new_sock();
  a->type = b->type = SK_STREAM; a->local = b->local = true; a->connected = b->connected = true;
  a->nonblock = b->nonblock = type & SOCK_NONBLOCK;
  a->peer = b; b->peer = a;
  sv[0] = alloc_fd(a); sv[1] = alloc_fd(b);
  return 0;
}
EXPORT int pipe2(int p[2], int flags) {
  static int (*r)(int*, int);
  if (!sim()) return real(r, "pipe2")(p, flags);
  return socketpair(AF_UNIX, SOCK_STREAM | (flags & O_NONBLOCK ? SOCK_NONBLOCK : 0), 0, p);
}
EXPORT int pipe(int p[2]) { return pipe2(p, 0); }
EXPORT int eventfd(unsigned init, int flags) {
  static int (*r)(unsigned, int);
  if (!sim()) return real(r, "eventfd")(init, flags);
  Sock* a = new_sock();
  a->type = SK_STREAM; a->local = true; a->connected = true; a->peer = a;
  a->nonblock = flags & O_NONBLOCK;
  return alloc_fd(a);
}
EXPORT int bind(int fd, const struct sockaddr* a, socklen_t l) {
  static int (*r)(int, const struct sockaddr*, socklen_t);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "bind")(fd, a, l);
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  if (port) {
    for (int i = 0; i < NFD; i++) if (fds[i] && fds[i] != s && fds[i]->bound && fds[i]->port == port && fds[i]->type != SK_STREAM) { errno = EADDRINUSE; return -1; }
  } else port = next_port++;
  s->bound = true; s->port = port;
  return 0;
}
EXPORT int listen(int fd, int n) {
  static int (*r)(int, int);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "listen")(fd, n);
  sync_point(34);
  s->type = SK_LISTEN;
  return 0;
}
EXPORT int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  static int (*r)(int, struct sockaddr*, socklen_t*, int);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "accept4")(fd, a, l, flags);
  sync_point(35);
  for (;;) {
    if (s->type != SK_LISTEN) { errno = EINVAL; return -1; }
    u64 nx = ~0ull;
    for (int i = 0; i < s->nback; i++) {
      if (s->arrive[i] <= G.now) {
        Sock* c = s->backlog[i];
        for (int k = i + 1; k < s->nback; k++) { s->backlog[k - 1] = s->backlog[k]; s->arrive[k - 1] = s->arrive[k]; }
        s->nback--;
        if (a && l) set_addr(a, l, c->rport);
        c->nonblock = flags & SOCK_NONBLOCK;
        c->fd_open = false; c->idle = true;
        int k = alloc_fd(c);
        return k;
      }
      if (s->arrive[i] < nx) nx = s->arrive[i];
    }
    if (s->nonblock) { errno = EAGAIN; return -1; }
    wait_sock(s, nx);
  }
}
EXPORT int accept(int fd, struct sockaddr* a, socklen_t* l) {
  static int (*r)(int, struct sockaddr*, socklen_t*);
  if (!sim() || !is_sim_fd(fd)) return real(r, "accept")(fd, a, l);
  return accept4(fd, a, l, 0);
}
EXPORT int connect(int fd, const struct sockaddr* a, socklen_t l) {
  static int (*r)(int, const struct sockaddr*, socklen_t);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "connect")(fd, a, l);
  sync_point(36);
  if (s->type == SK_STREAM) { errno = s->connecting ? EALREADY : EISCONN; return -1; }
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  s->type = SK_STREAM; s->rport = port;
  if (!s->port) s->port = next_port++;
  s->connecting = true;
  u64 lat = latency(s);
  s->conn_at = G.now + 2 * lat;
  Sock* ln = listener(port);
  if (fault(F_NET_BLACKHOLE)) s->conn_at = ~0ull - 1;
  else if (!ln || ln->nback >= 128 || fault(F_NET_REFUSE)) s->conn_fail = true;
  else {
    Sock* c = new_sock();
    c->type = SK_STREAM; c->connected = true; c->port = port; c->rport = s->port;
    c->peer = s; s->peer = c; c->fd_open = true;
    c->last_at = s->last_at = 0;
    ln->backlog[ln->nback] = c; ln->arrive[ln->nback] = G.now + lat; ln->nback++;
    wake_sock(ln);
  }
  if (s->nonblock) { errno = EINPROGRESS; return -1; }
  while (s->connecting) {
    if (s->conn_at <= G.now) {
      s->connecting = false;
      if (s->conn_fail) { s->reset = true; errno = ECONNREFUSED; return -1; }
      s->connected = true;
      return 0;
    }
    wait_sock(s, s->conn_at);
  }
  return 0;
}
EXPORT ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (me) me->alloc_open = false;
  static ssize_t (*r)(int, void*, size_t, int);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "recv")(fd, b, n, flags); }
  return sk_recv(s, (char*)b, n, flags);
}
EXPORT ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
  if (me) me->alloc_open = false;
  static ssize_t (*r)(int, void*, size_t, int, struct sockaddr*, socklen_t*);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "recvfrom")(fd, b, n, flags, a, l);
  return sk_recv(s, (char*)b, n, flags);
}
EXPORT ssize_t read(int fd, void* b, size_t n) {
  static ssize_t (*r)(int, void*, size_t);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "read")(fd, b, n); }
  return sk_recv(s, (char*)b, n, 0);
}
EXPORT ssize_t send(int fd, const void* b, size_t n, int flags) {
  if (me) me->alloc_open = false;
  static ssize_t (*r)(int, const void*, size_t, int);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "send")(fd, b, n, flags); }
  return sk_send(s, (const char*)b, n, flags);
}
EXPORT ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
  if (me) me->alloc_open = false;
  static ssize_t (*r)(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "sendto")(fd, b, n, flags, a, l);
  return sk_send(s, (const char*)b, n, flags);
}
EXPORT ssize_t write(int fd, const void* b, size_t n) {
  static ssize_t (*r)(int, const void*, size_t);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "write")(fd, b, n); }
  return sk_send(s, (const char*)b, n, 0);
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  if (me) me->alloc_open = false;
  static ssize_t (*r)(int, const struct msghdr*, int);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "sendmsg")(fd, m, flags);
  for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sk_send(s, (const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
  return 0;
}
EXPORT int close(int fd) {
  static int (*r)(int);
  if (!sim() || !is_sim_fd(fd)) return real(r, "close")(fd);
  Sock* s = get(fd);
  sync_point(37);
  if (!s || fds[fd - FD0] != s) {
    s = get(fd);
    if (!s) { errno = EBADF; return -1; }
  }
  fds[fd - FD0] = nullptr;
  sk_close(s);
  return 0;
}
EXPORT int shutdown(int fd, int how) {
  static int (*r)(int, int);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "shutdown")(fd, how); }
  sync_point(38);
  if (s->type == SK_LISTEN) { wake_sock(s); return 0; }
  if (s->type != SK_STREAM) { errno = ENOTCONN; return -1; }
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->wr_shut) {
    s->wr_shut = true;
    if (s->peer) enqueue(s->peer, SEG_FIN, nullptr, 0, G.now + (s->local ? 0 : G.cfg.net_base_ns));
  }
  if (how == SHUT_RD || how == SHUT_RDWR) { s->rd_shut = true; wake_sock(s); }
  return 0;
}
static int do_poll(struct pollfd* p, nfds_t n, u64 deadline) {
  sync_point(39);
  for (;;) {
    int c = 0;
    u64 nx = ~0ull;
    me->socks.n = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      Sock* s = get(p[i].fd);
      if (!s) { if (is_sim_fd(p[i].fd)) { p[i].revents = POLLNVAL; c++; } continue; }
      s->idle = false;
      int r = readiness(s, p[i].events, &nx);
      p[i].revents = r;
      if (r) c++;
      if (me->socks.n >= 0) { if (me->socks.n < 16) me->socks.s[me->socks.n++] = s; else me->socks.n = -1; }
    }
    if (c || deadline <= G.now) return c;
    block(B_SOCK, nullptr, nx < deadline ? nx : deadline);
  }
}
EXPORT int poll(struct pollfd* p, nfds_t n, int ms) {
  static int (*r)(struct pollfd*, nfds_t, int);
  if (!sim()) return real(r, "poll")(p, n, ms);
  return do_poll(p, n, ms < 0 ? ~0ull : G.now + (u64)ms * 1000000ull);
}
EXPORT int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) {
  if (!sim()) return -1;
  return do_poll(p, n, ts ? G.now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : ~0ull);
}
EXPORT int fcntl(int fd, int cmd, ...) {
  static int (*r)(int, int, ...);
  va_list ap; va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "fcntl")(fd, cmd, arg); }
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK;
  return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  static int (*r)(int, unsigned long, ...);
  va_list ap; va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "ioctl")(fd, req, arg);
  if (req == FIONBIO) s->nonblock = *(int*)arg;
  else if (req == FIONREAD) *(int*)arg = (int)s->inq;
  return 0;
}
EXPORT int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l) {
  static int (*r)(int, int, int, const void*, socklen_t);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "setsockopt")(fd, lvl, opt, v, l); }
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    const struct timeval* tv = (const struct timeval*)v;
    u64 ns = (u64)tv->tv_sec * 1000000000ull + (u64)tv->tv_usec * 1000;
    (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = ns;
  }
  return 0;
}
EXPORT int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) {
  static int (*r)(int, int, int, void*, socklen_t*);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) { if (sim() && is_sim_fd(fd)) { errno = EBADF; return -1; } return real(r, "getsockopt")(fd, lvl, opt, v, l); }
  if (lvl == SOL_SOCKET && opt == SO_ERROR) {
    u64 nx = ~0ull;
    readiness(s, 0, &nx);
    *(int*)v = s->err; s->err = 0; *l = sizeof(int);
    return 0;
  }
  if (*l >= sizeof(int)) { *(int*)v = opt == SO_SNDBUF || opt == SO_RCVBUF ? 65536 : 0; *l = sizeof(int); }
  return 0;
}
EXPORT int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  static int (*r)(int, struct sockaddr*, socklen_t*);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "getsockname")(fd, a, l);
  set_addr(a, l, s->port);
  return 0;
}
EXPORT int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  static int (*r)(int, struct sockaddr*, socklen_t*);
  Sock* s = sim() ? get(fd) : nullptr;
  if (!s) return real(r, "getpeername")(fd, a, l);
  if (!s->connected && !s->connecting) { errno = ENOTCONN; return -1; }
  set_addr(a, l, s->rport);
  return 0;
}

// ---- name resolution
EXPORT int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  static int (*r)(const char*, const char*, const struct addrinfo*, struct addrinfo**);
  if (!sim()) return real(r, "getaddrinfo")(node, service, hints, res);
  struct in_addr ia;
  ia.s_addr = htonl(INADDR_LOOPBACK);
  bool numeric = !node || inet_pton(AF_INET, node, &ia) == 1;
  if (!numeric && hints && (hints->ai_flags & AI_NUMERICHOST)) return EAI_NONAME;
  if (hints && hints->ai_family == AF_INET6) return EAI_NONAME;
  if (!numeric) {
    sync_point(40);
    u64 v = fault_val(F_DNS, 1, 40);
    if (v == 1 || v == 2) { sleep_ns(v * 1000000); return EAI_AGAIN; }
    if (v == 3) return EAI_NONAME;
    sleep_ns(v ? v * 1000000000ull : 1000000ull);
    if (strstr(node, "nosuch")) return EAI_NONAME;
  }
  int port = service ? atoi(service) : 0;
  struct Blk { struct addrinfo ai; struct sockaddr_in sa; };
  Blk* b = (Blk*)calloc(1, sizeof(Blk));
  b->sa.sin_family = AF_INET; b->sa.sin_port = htons(port); b->sa.sin_addr = ia;
  b->ai.ai_family = AF_INET; b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  b->ai.ai_protocol = IPPROTO_TCP; b->ai.ai_addrlen = sizeof b->sa; b->ai.ai_addr = (struct sockaddr*)&b->sa;
  *res = &b->ai;
  return 0;
}
EXPORT void freeaddrinfo(struct addrinfo* ai) {
  static void (*r)(struct addrinfo*);
  if (in_arena(ai)) free(ai);
  else real(r, "freeaddrinfo")(ai);
}
EXPORT int gethostname(char* b, size_t n) {
  static int (*r)(char*, size_t);
  if (!sim()) return real(r, "gethostname")(b, n);
  strncpy(b, "simhost", n);
  return 0;
}
