// dsim runtime: fault injection and exclusive-use tracking at the boundary to
// libcurl and zlib.  Linked with -Wl,--wrap=..., so only calls made by the code
// under test pass through here; the libraries themselves run unmodified.
#define CURL_DISABLE_TYPECHECK
#include <curl/curl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <zlib.h>

#include "libs.h"
#include "rt_int.h"

#undef curl_easy_setopt
#undef curl_easy_getinfo

extern "C" {
CURLcode __real_curl_global_init(long);
void __real_curl_global_cleanup(void);
CURL* __real_curl_easy_init(void);
void __real_curl_easy_cleanup(CURL*);
void __real_curl_easy_reset(CURL*);
CURLcode __real_curl_easy_setopt(CURL*, CURLoption, ...);
CURLcode __real_curl_easy_perform(CURL*);
CURLcode __real_curl_easy_getinfo(CURL*, CURLINFO, ...);
struct curl_slist* __real_curl_slist_append(struct curl_slist*, const char*);
void __real_curl_slist_free_all(struct curl_slist*);
int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char*, int);
int __real_deflate(z_streamp, int);
int __real_deflateEnd(z_streamp);
}

namespace dsim {
static CurlStats st;
struct H { CURL* h; bool live; int busy; const void* slist; char* tag; };
static H hs[64];
static int nh;
static i64 deflates;
static u64 performing;

CurlStats curl_stats() { return st; }
u64 curl_live_handles() { u64 n = 0; for (int i = 0; i < nh; i++) n += hs[i].live; return n; }
u64 deflate_live() { return deflates > 0 ? deflates : 0; }

static H* find(CURL* c, const char* op) {
  if (!sim()) return nullptr;
  for (int i = nh - 1; i >= 0; i--)
    if (hs[i].h == c) {
      if (!hs[i].live) violation("dead-handle", "%s on an HTTP client handle that has been cleaned up", op);
      return &hs[i];
    }
  return nullptr;
}
static H* enter(CURL* c, const char* op) {
  H* h = find(c, op);
  if (!h) return nullptr;
  if (h->busy >= 0 && h->busy != me->id) violation("handle-shared", "%s by T%d while T%d is using the same HTTP client handle", op, me->id, h->busy);
  h->busy = me->id;
  access(h->tag, 1, true, false, (u64)__builtin_return_address(0), true);
  yield_point();
  return h;
}
static void leave(H* h) { if (h) h->busy = -1; }
}  // namespace dsim
using namespace dsim;

extern "C" CURLcode __wrap_curl_global_init(long f) {
  if (!sim()) return __real_curl_global_init(f);
  sync_point(60);
  if (fault(F_CURL_INIT)) { st.init_fail++; return CURLE_FAILED_INIT; }
  CURLcode r = __real_curl_global_init(f);
  if (r == CURLE_OK) st.global_init_ok++;
  return r;
}
extern "C" void __wrap_curl_global_cleanup(void) {
  if (!sim()) { __real_curl_global_cleanup(); return; }
  sync_point(61);
  st.global_cleanup++;
  if (st.global_cleanup > st.global_init_ok) violation("unbalanced-cleanup", "global HTTP client state released more often than initialised");
  __real_curl_global_cleanup();
}
extern "C" CURL* __wrap_curl_easy_init(void) {
  if (!sim()) return __real_curl_easy_init();
  sync_point(62);
  if (fault(F_CURL_INIT)) { st.init_fail++; return nullptr; }
  CURL* c = __real_curl_easy_init();
  if (c && nh < 64) { hs[nh].h = c; hs[nh].live = true; hs[nh].busy = -1; hs[nh].tag = (char*)malloc(16); nh++; st.easy_init_ok++; }
  return c;
}
extern "C" void __wrap_curl_easy_cleanup(CURL* c) {
  H* h = c ? enter(c, "cleanup") : nullptr;
  if (h) { h->live = false; st.easy_cleanup++; }
  __real_curl_easy_cleanup(c);
}
extern "C" void __wrap_curl_easy_reset(CURL* c) {
  H* h = enter(c, "reset");
  __real_curl_easy_reset(c);
  leave(h);
}
extern "C" CURLcode __wrap_curl_easy_setopt(CURL* c, CURLoption o, ...) {
  va_list ap; va_start(ap, o);
  void* a = va_arg(ap, void*);
  va_end(ap);
  H* h = enter(c, "setopt");
  // only the options that copy their argument can fail (for want of memory)
  bool copies = o == CURLOPT_URL || o == CURLOPT_USERPWD || o == CURLOPT_USERNAME || o == CURLOPT_PASSWORD || o == CURLOPT_CUSTOMREQUEST || o == CURLOPT_USERAGENT || o == CURLOPT_COPYPOSTFIELDS;
  if (h && copies && fault(F_CURL_OPT)) { leave(h); return CURLE_OUT_OF_MEMORY; }
  if (h && o == CURLOPT_HTTPHEADER) h->slist = a;
  CURLcode r = __real_curl_easy_setopt(c, o, a);
  leave(h);
  return r;
}
static void touch_list(const void* l, bool write) {
  for (const curl_slist* p = (const curl_slist*)l; p; p = p->next) {
    if (in_arena(p)) {
      if (!heap_is_live(p)) violation("use-after-free", "a header list that has been freed is used by a transfer");
      access(p, sizeof *p, write && !p->next, false, (u64)__builtin_return_address(0));
      if (write && p->next == nullptr) break;
    }
  }
}
extern "C" CURLcode __wrap_curl_easy_perform(CURL* c) {
  H* h = enter(c, "perform");
  st.performs++;
  performing++;
  if (performing > st.max_concurrent_performs) st.max_concurrent_performs = performing;
  if (h && h->slist) touch_list(h->slist, false);
  u64 t0 = G.now;
  CURLcode r = __real_curl_easy_perform(c);
  if (G.now - t0 > st.max_perform_ns) st.max_perform_ns = G.now - t0;
  if (sim()) hmix(r);
  performing--;
  leave(h);
  return r;
}
extern "C" CURLcode __wrap_curl_easy_getinfo(CURL* c, CURLINFO i, ...) {
  va_list ap; va_start(ap, i);
  void* a = va_arg(ap, void*);
  va_end(ap);
  H* h = enter(c, "getinfo");
  CURLcode r = __real_curl_easy_getinfo(c, i, a);
  leave(h);
  return r;
}
extern "C" struct curl_slist* __wrap_curl_slist_append(struct curl_slist* l, const char* s) {
  if (!sim()) return __real_curl_slist_append(l, s);
  sync_point(63);
  if (fault(F_CURL_SLIST)) { st.slist_append_fail++; return nullptr; }
  touch_list(l, true);
  struct curl_slist* r = __real_curl_slist_append(l, s);
  if (r) st.slist_nodes_live++;
  return r;
}
extern "C" void __wrap_curl_slist_free_all(struct curl_slist* l) {
  if (!sim()) { __real_curl_slist_free_all(l); return; }
  sync_point(64);
  for (struct curl_slist* p = l; p; p = p->next) {
    if (in_arena(p) && !heap_is_live(p)) violation("double-free", "header list freed twice");
    if (in_arena(p)) access(p, sizeof *p, true, false, (u64)__builtin_return_address(0));
    st.slist_nodes_live--;
  }
  __real_curl_slist_free_all(l);
}

// zlib: value 1 = initialisation fails, 2 = deflate fails half way
static bool z_arm;
extern "C" int __wrap_deflateInit2_(z_streamp z, int a, int b, int c, int d, int e, const char* v, int n) {
  u64 f = sim() ? fault_val(F_ZLIB, 1, 2) : 0;
  if (f == 1) return Z_MEM_ERROR;
  int r = __real_deflateInit2_(z, a, b, c, d, e, v, n);
  if (r == Z_OK) { deflates++; if (sim()) z_arm = f == 2; }
  return r;
}
extern "C" int __wrap_deflate(z_streamp z, int f) {
  if (sim() && z_arm) {
    // some output, and then no more
    z_arm = false;
    uInt lim = z->avail_out < 12 ? z->avail_out : 12, rest = z->avail_out - lim;
    z->avail_out = lim;
    __real_deflate(z, f);
    z->avail_out += rest;
    return Z_BUF_ERROR;
  }
  return __real_deflate(z, f);
}
extern "C" int __wrap_deflateEnd(z_streamp z) {
  deflates--;
  return __real_deflateEnd(z);
}
