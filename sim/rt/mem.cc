// dsim runtime: memory.  Fixed-address arena without reuse (use-after-free and
// overflow detection by state map), allocation faults, happens-before data race
// detection, and the compiler's thread-sanitizer call-backs.
#include "rt_int.h"

#include <dlfcn.h>
#include <link.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);
extern "C" char __executable_start, _end, __etext;

namespace dsim {

static const u64 A_BASE = 0x200000000000ull;
static const u64 STACK_SZ = 512 << 10;
static const u64 HEAP_SZ = 768ull << 20;
static const u64 STACKS = A_BASE;                       // one per thread
static const u64 HEAP = A_BASE + MAXT * STACK_SZ;
static const u64 A_END = HEAP + HEAP_SZ;
static const u64 SHADOW = 0x210000000000ull;
static const u64 GSHADOW = 0x218000000000ull;
static const u64 STATE = 0x21c000000000ull;
static u64 g_lo, g_hi;

struct Gran { u64 c[4]; u32 pc[4]; };
static Gran* const shadow = (Gran*)SHADOW;
static Gran* const gshadow = (Gran*)GSHADOW;
static unsigned char* const state = (unsigned char*)STATE;   // per 8 heap bytes
static u64 hp = HEAP + 64;
u64 g_heap_used;

static void* map_at(u64 a, u64 n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) { fprintf(stderr, "dsim: cannot map %llx\n", (unsigned long long)a); _Exit(99); }
  return p;
}
static int find_cxx(struct dl_phdr_info* i, size_t, void*);
void mem_init() {
  dl_iterate_phdr(find_cxx, nullptr);
  map_at(A_BASE, A_END - A_BASE);
  map_at(SHADOW, (A_END - A_BASE) / 8 * sizeof(Gran));
  g_lo = (u64)&__executable_start & ~7ull;
  g_hi = ((u64)&_end + 7) & ~7ull;
  map_at(GSHADOW, (g_hi - g_lo) / 8 * sizeof(Gran) + 4096);
  map_at(STATE, HEAP_SZ / 8);
}
bool in_arena(const void* p) { return (u64)p >= HEAP && (u64)p < A_END; }
void* stack_for(int tid, size_t* size) { *size = STACK_SZ; return (void*)(STACKS + tid * STACK_SZ); }

// ------------------------------------------------------------------ allocation
struct Hdr { u64 size; u32 seq; unsigned char kind; unsigned char live; unsigned char tid; unsigned char exe; };
enum { K_MALLOC = 1, K_NEW = 2 };
static u32 alloc_seq;
static u64 exe_live;
static u64 exe_live_bytes;

static u64 cxx_lo, cxx_hi;   // libstdc++: strings and streams allocate from inside it
static bool from_exe(u64 ra) { return (ra >= (u64)&__executable_start && ra < (u64)&__etext) || (ra >= cxx_lo && ra < cxx_hi); }
static int find_cxx(struct dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libstdc++")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { cxx_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; cxx_hi = cxx_lo + i->dlpi_phdr[k].p_memsz; }
  return 1;
}

static void* arena_alloc(size_t n, size_t align, int kind, u64 ra) {
  if (align < 16) align = 16;
  u64 p = (hp + sizeof(Hdr) + align - 1) & ~(u64)(align - 1);
  if (n > HEAP_SZ || p + n + 64 > A_END) {
    if (n > HEAP_SZ / 2) return nullptr;
    violation("memory-exhausted", "more than %llu MB allocated in one run", (unsigned long long)(HEAP_SZ >> 20));
  }
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n; h->seq = ++alloc_seq; h->kind = kind; h->live = 1; h->tid = me ? me->id : 0;
  h->exe = kind == K_NEW && me && me->in_api > 0 && from_exe(ra);
  if (h->exe) { exe_live++; exe_live_bytes += n; }
  u64 g = (p - HEAP) >> 3;
  u64 full = n >> 3;
  memset(state + g, 8, full);
  if (n & 7) state[g + full] = n & 7;
  else if (!n) state[g] = 0;
  hp = p + ((n + 15) & ~15ull) + 16;
  g_heap_used = hp - HEAP;
  if (n <= 8192) memset((void*)p, 0xCD, n);
  return (void*)p;
}
static Hdr* hdr(void* p) { return (Hdr*)((u64)p - sizeof(Hdr)); }
static bool plausible(void* p) {
  u64 a = (u64)p;
  if (a & 15) return false;
  Hdr* h = hdr(p);
  return (h->kind == K_MALLOC || h->kind == K_NEW) && h->size < HEAP_SZ;
}
static void arena_free(void* p, int kind, u64 ra) {
  if (!g_on) return;
  if (!plausible(p)) violation("bad-free", "free of %p, which was not returned by an allocation", p);
  Hdr* h = hdr(p);
  if (!h->live) { fill_stack(0, ra); violation("double-free", "block #%u of %llu bytes freed twice", h->seq, (unsigned long long)h->size); }
  if (kind == K_NEW && from_exe(ra)) {
    // releasing memory conflicts with every access that is not ordered before it
    access(p, h->size ? h->size : 1, true, false, ra, true);
  }
  h->live = 0;
  if (h->exe) { exe_live--; exe_live_bytes -= h->size; }
  u64 g = ((u64)p - HEAP) >> 3;
  memset(state + g, 0xFD, (h->size + 7) >> 3);
  if (h->size <= (1 << 20)) memset(p, 0xDB, h->size);
}
bool heap_is_live(const void* p) {
  if (!in_arena(p)) return true;
  unsigned char s = state[((u64)p - HEAP) >> 3];
  return s >= 1 && s <= 8;
}
u64 live_blocks() { return exe_live; }
u64 live_bytes() { return exe_live_bytes; }

static bool alloc_fails() {
  Thr* t = me;
  if (!t || t->in_api <= 0 || t->nofault) return false;
  // a thread of the server or client library: only inside the code under test
  if (!t->harness && (!t->cs_n || alloc_gated())) return false;
  if (t->alloc_arm > 0 && --t->alloc_arm == 0) {
    t->alloc_arm = -1; t->alloc_hit = true;
    G.fault_n[F_ALLOC]++; 
    hmix(0xa110c);
    return true;
  }
  return fault(F_ALLOC);
}

static void* do_new(size_t n, size_t align, u64 ra, bool nothrow) {
  if (!sim()) {
    void* p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  if (from_exe(ra) && alloc_fails()) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p = arena_alloc(n, align, K_NEW, ra);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  return p;
}
static void do_delete(void* p, u64 ra) {
  if (!p) return;
  if (in_arena(p)) arena_free(p, K_NEW, ra);
  else if (!g_on || (u64)p < A_BASE || (u64)p >= A_END) __libc_free(p);
  else violation("bad-free", "delete of a stack address");
}

// ------------------------------------------------------------------ race detection
static inline u64 mk(u64 tid, u64 epoch, u64 mask, bool w, bool at) { return epoch << 32 | tid << 16 | mask << 8 | (u64)w << 1 | (u64)at << 2 | 1; }

static void race(u64 addr, int size, bool write, bool atomic, u64 pc, u64 old, u32 oldpc) {
  Result* r = G.res;
  fill_stack(0, pc);
  r->stack[1][0] = oldpc; r->nstack[1] = 1;
  char where[160] = "global/stack memory";
  if (in_arena((void*)addr)) {
    // find the block header by scanning the state map backwards
    u64 g = (addr - HEAP) >> 3;
    while (g > 0 && state[g] != 0) g--;
    // the header occupies the two granules before the block
    u64 a = HEAP + ((g + 1) << 3);
    a = (a + 15) & ~15ull;
    Hdr* h = (Hdr*)(a - sizeof(Hdr));
    if (h->size < HEAP_SZ && a <= addr) snprintf(where, sizeof where, "heap block #%u of %llu bytes at offset %llu", h->seq, (unsigned long long)h->size, (unsigned long long)(addr - a));
  }
  violation("data-race", "%s%s of %d byte(s) by T%d conflicts with an unordered %s%s by T%d in %s", atomic ? "atomic " : "", write ? "write" : "read", size, me->id,
            old & 4 ? "atomic " : "", old & 2 ? "write" : "read", (int)(old >> 16 & 0xff), where);
}

static void check_gran(Gran* g, u64 addr, u64 mask, bool write, bool atomic, u64 pc, int size) {
  Thr* t = me;
  const u64 cur = mk(t->id, t->vc.c[t->id], mask, write, atomic);
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    u64 o = g->c[i];
    if (o == cur) return;
    if (!o) { if (slot < 0) slot = i; continue; }
    u64 omask = o >> 8 & 0xff;
    u64 otid = o >> 16 & 0xff;
    if (otid == (u64)t->id) {
      // our own older access: replaceable when the new one subsumes it
      bool ow = o & 2, oat = o & 4;
      if ((omask & ~mask) == 0 && (write || !ow) && (!atomic || oat)) {
        if (slot < 0 || !g->c[slot]) slot = i;
        else g->c[i] = 0;
      }
      continue;
    }
    bool ordered = t->vc.c[otid] >= (u32)(o >> 32);
    if (omask & mask) {
      bool ow = o & 2, oat = o & 4;
      if ((write || ow) && !(atomic && oat) && !ordered) race(addr, size, write, atomic, pc, o, g->pc[i]);
      if (ordered && (omask & ~mask) == 0 && (write || !ow) && (!atomic || oat)) {
        if (slot < 0) slot = i;
        else g->c[i] = 0;
      }
    }
  }
  if (slot < 0) {
    // evict an ordered one if possible, otherwise pseudo-randomly
    for (int i = 0; i < 4 && slot < 0; i++) {
      u64 otid = g->c[i] >> 16 & 0xff;
      if (otid != (u64)t->id && t->vc.c[otid] >= (u32)(g->c[i] >> 32)) slot = i;
    }
    if (slot < 0) slot = (int)((addr >> 3 ^ t->vc.c[t->id]) & 3);
  }
  g->c[slot] = cur;
  g->pc[slot] = (u32)pc;
}

static void bad_access(u64 addr, size_t n, bool write, u64 pc, unsigned char st) {
  fill_stack(0, pc);
  violation(st == 0xFD ? "use-after-free" : "out-of-bounds", "%s of %llu byte(s) at %#llx: %s", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr,
            st == 0xFD ? "the memory has been freed" : "outside any live heap block");
}

void access(const void* p, size_t n, bool write, bool atomic, u64 pc, bool race_only) {
  u64 a = (u64)p;
  if (!n) return;
  Gran* base;
  u64 off;
  if (a - A_BASE < A_END - A_BASE) {
    base = shadow; off = A_BASE;
    if (a >= HEAP && !race_only) {
      u64 last = a + n - 1;
      for (u64 g = (a - HEAP) >> 3, e = (last - HEAP) >> 3; g <= e; g++) {
        unsigned char st = state[g];
        if (st == 8) continue;
        u64 hi = g == e ? (last & 7) + 1 : 8;
        if (st == 0 || st == 0xFD || hi > st) { bad_access(a, n, write, pc, st); }
      }
    } else if (a < HEAP) {
      // own stack: private unless somebody else has looked at it
      u64 lo = STACKS + (u64)me->id * STACK_SZ;
      if (a >= lo && a < lo + STACK_SZ && n <= 16) { /* still recorded below: others may hold pointers */ }
    }
  } else if (a >= g_lo && a < g_hi) {
    base = gshadow; off = g_lo;
  } else {
    return;
  }
  if (!G.cfg.race_detect) return;
  if (n > (1 << 20)) n = 1 << 20;
  u64 e = a + n;
  while (a < e) {
    u64 g = (a - off) >> 3;
    u64 in = a & 7;
    u64 k = 8 - in;
    if (k > e - a) k = e - a;
    u64 mask = ((1ull << k) - 1) << in & 0xff;
    check_gran(&base[g], a, mask, write, atomic, pc, (int)n);
    a += k;
  }
}

void shadow_access(const void* p, bool write) { if (sim()) access(p, 1, write, false, (u64)__builtin_return_address(0), true); }

static inline void plain(const void* p, size_t n, bool w, u64 pc, bool count_only = false) {
  if (__builtin_expect(!g_on, 0)) return;
  Thr* t = me;
  if (!t) return;
  if (t->in_api > 0) {
    G.steps++; G.plain++;
    if (__builtin_expect(G.steps >= G.next_stop, 0)) {
      t->cs[t->cs_n < NSTACK * 16 ? t->cs_n : 0] = pc;
      plain_slow();
    }
    if (__builtin_expect(G.plain > G.cfg.max_plain, 0)) { fill_stack(0, pc); violation("no-progress", "no completion within %llu memory accesses (endless loop)", (unsigned long long)G.cfg.max_plain); }
    if (!count_only) access(p, n, w, false, pc);   // harness code outside API calls is not judged
  }
}

}  // namespace dsim
using namespace dsim;
#define RA ((u64)__builtin_return_address(0))

// ==================================================================== malloc & new
EXPORT void* malloc(size_t n) { return sim() ? arena_alloc(n, 16, K_MALLOC, RA) : __libc_malloc(n); }
EXPORT void* calloc(size_t a, size_t b) {
  if (!sim()) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = arena_alloc(n, 16, K_MALLOC, RA);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT void free(void* p) {
  if (!p) return;
  if (in_arena(p)) { int e = errno; arena_free(p, K_MALLOC, RA); errno = e; }
  else __libc_free(p);
}
EXPORT void* realloc(void* p, size_t n) {
  if (!sim() && !in_arena(p)) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (!in_arena(p)) {   // allocated before the run started
    void* q = arena_alloc(n, 16, K_MALLOC, RA);
    // the old size is unknown; copy what malloc_usable_size would allow
    extern size_t malloc_usable_size_of(void*);
    static size_t (*mus)(void*);
    if (!mus) mus = (size_t (*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
    size_t o = mus ? mus(p) : n;
    memcpy(q, p, o < n ? o : n);
    return q;
  }
  if (!plausible(p) || !hdr(p)->live) violation("bad-free", "realloc of a block that is not live");
  size_t o = hdr(p)->size;
  void* q = arena_alloc(n, 16, K_MALLOC, RA);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  arena_free(p, K_MALLOC, RA);
  return q;
}
EXPORT void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  return realloc(p, n);
}
EXPORT void* memalign(size_t al, size_t n) { return sim() ? arena_alloc(n, al, K_MALLOC, RA) : __libc_memalign(al, n); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }

__attribute__((visibility("default"))) void* operator new(size_t n) { return do_new(n, 16, RA, false); }
__attribute__((visibility("default"))) void* operator new[](size_t n) { return do_new(n, 16, RA, false); }
__attribute__((visibility("default"))) void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, RA, true); }
__attribute__((visibility("default"))) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, RA, true); }
__attribute__((visibility("default"))) void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, RA, false); }
__attribute__((visibility("default"))) void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, RA, false); }
__attribute__((visibility("default"))) void operator delete(void* p) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, RA); }

// ==================================================================== compiler call-backs
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) {
  Thr* t = me;
  if (!t) return;
  if (t->cs_n < NSTACK * 16) t->cs[t->cs_n] = (u64)pc;
  if (!t->cs_n++) t->alloc_open = true;   // (matters only behind the gate, see alloc_gated)
}
EXPORT void __tsan_func_exit() { Thr* t = me; if (t && t->cs_n > 0) t->cs_n--; }

#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { plain(p, n, false, RA); } \
  EXPORT void __tsan_write##n(void* p) { plain(p, n, true, RA); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { plain(p, n, false, RA); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { plain(p, n, true, RA); } \
  EXPORT void __tsan_volatile_read##n(void* p) { plain(p, n, false, RA); } \
  EXPORT void __tsan_volatile_write##n(void* p) { plain(p, n, true, RA); } \
  EXPORT void __tsan_read_write##n(void* p) { plain(p, n, false, RA); plain(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { plain(p, n, false, RA); }
EXPORT void __tsan_write_range(void* p, size_t n) { plain(p, n, true, RA); }
EXPORT void __tsan_vptr_read(void** p) { plain(p, 8, false, RA); }
// storing the value that is there already is not a change; it counts as a step
// all the same, for what is there may be left over from anything
EXPORT void __tsan_vptr_update(void** p, void* v) { plain(p, 8, true, RA, *p == v); }

// memory intrinsics of instrumented code (redirected by objcopy)
EXPORT void* dsim_memcpy(void* d, const void* s, size_t n) { if (n) { plain(s, n, false, RA); plain(d, n, true, RA); } return memcpy(d, s, n); }
EXPORT void* dsim_memmove(void* d, const void* s, size_t n) { if (n) { plain(s, n, false, RA); plain(d, n, true, RA); } return memmove(d, s, n); }
EXPORT void* dsim_memset(void* d, int c, size_t n) { if (n) plain(d, n, true, RA); return memset(d, c, n); }
EXPORT int dsim_memcmp(const void* a, const void* b, size_t n) { if (n) { plain(a, n, false, RA); plain(b, n, false, RA); } return memcmp(a, b, n); }
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { return dsim_memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { return dsim_memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n) { return dsim_memset(d, c, n); }

// ---- atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void a_load(const volatile void* p, size_t n, int mo, u64 pc) {
  access((const void*)p, n, false, true, pc);
  Sync* s = sync_of((const void*)p);
  if (is_acq(mo)) acquire(s);
  else vc_join(me->fence_acq, s->vc);
}
static void a_store(const volatile void* p, size_t n, int mo, u64 pc) {
  access((const void*)p, n, true, true, pc);
  Sync* s = sync_of((const void*)p);
  if (is_rel(mo)) release_store(s);
  else if (me->has_fence_rel) s->vc = me->fence_rel;
}
static void a_rmw(const volatile void* p, size_t n, int mo, u64 pc) {
  access((const void*)p, n, true, true, pc);
  Sync* s = sync_of((const void*)p);
  if (is_acq(mo)) acquire(s);
  else vc_join(me->fence_acq, s->vc);
  if (is_rel(mo)) release(s);
  else if (me->has_fence_rel) vc_join(s->vc, me->fence_rel);
}

#define ATOM(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
    if (!sim()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    sync_point(20); a_load(a, sizeof(T), mo, RA); return *a; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
    if (!sim()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
    sync_point(21); a_store(a, sizeof(T), mo, RA); *a = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    sync_point(22); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
    sync_point(23); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = (T)(o + v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
    sync_point(23); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = (T)(o - v); return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); \
    sync_point(23); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = o & v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); \
    sync_point(23); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = o | v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); \
    sync_point(23); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = o ^ v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
    if (!sim()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); \
    sync_point(23); a_rmw(a, sizeof(T), mo, RA); T o = *a; *a = (T) ~(o & v); return o; } \
  static bool cas##bits(volatile T* a, T* e, T v, int mo, int fmo, bool weak, u64 pc) { \
    if (!sim()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    sync_point(24); \
    if (*a != *e || (weak && fault(F_CAS))) { \
      a_load(a, sizeof(T), fmo, pc); *e = *a; return false; } \
    a_rmw(a, sizeof(T), mo, pc); *a = v; return true; } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, false, RA); } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, true, RA); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas##bits(a, &e, v, mo, fmo, false, RA); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)

EXPORT void __tsan_atomic_thread_fence(int mo) {
  if (!sim()) return;
  sync_point(25);
  if (is_acq(mo)) vc_join(me->vc, me->fence_acq);
  if (is_rel(mo)) { me->fence_rel = me->vc; me->has_fence_rel = true; new_epoch(); }
}
EXPORT void __tsan_atomic_signal_fence(int) {}
