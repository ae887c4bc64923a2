// Memory: blocks allocated by the library under test live in an arena with
// redzones, seeded fill patterns, ASan-style shadow and injected allocation failure.
#include "rt.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <dlfcn.h>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
uintptr_t g_arena_lo = 0, g_arena_hi = 0;
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SZ = 512u << 20;
static const size_t RZ = 32;              // redzone before and after
static uint8_t* shadow;                   // one byte per 8: 0 ok, 1..7 partial, >=0x80 not addressable
static uintptr_t bump;
static uint64_t nalloc;
static const void* alloc_ra;                    // caller of the allocation in progress (grouping only)
static uint64_t siteset[4096];
struct Hdr { uint64_t magic; uint32_t size_lo; uint32_t size_hi; uint64_t base; uint64_t serial; };
static const uint64_t MAGIC = 0x51d0c0de51d0c0deull, FREED = 0xdeadf7eedeadf7eeull;
static uintptr_t* blocks; static size_t nblocks; static const size_t MAXBLOCKS = 1 << 20;

static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void fill(void* p, size_t n, uint64_t seed) {
  uint64_t f = g.shm->k.fill;
  switch (f & 3) {
    case 0: memset(p, (int)((f >> 8) & 0xff), n); return;      // constant byte
    case 1: { // plausible doubles
      double d = 1.0 + (double)(mix(f ^ seed) % 1000) / 7.0; size_t i = 0;
      for (; i + 8 <= n; i += 8) memcpy((char*)p + i, &d, 8);
      if (i < n) memset((char*)p + i, 1, n - i);
      return;
    }
    default: { uint64_t x = mix(f ^ seed); size_t i = 0;
      for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; memcpy((char*)p + i, &x, 8); }
      for (; i < n; i++) ((char*)p)[i] = (char)x; }
  }
}
void mem_report(const char* what, uintptr_t a, size_t n, uintptr_t pc) {
  SimShared* s = g.shm;
  char b[160]; snprintf(b, sizeof b, "%s size=%zu pc=%#lx", what, n, pc >= g.repo_lo && pc < g.repo_hi ? (unsigned long)(pc - g.repo_lo) : 0ul);
  for (int i = 0; i < s->nmem; i++) if (!strcmp(s->mem[i], b)) return;
  if (s->nmem < 8) strcpy(s->mem[s->nmem++], b);
}
void mem_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!n) return;
  uintptr_t o = a - ARENA, e = o + n - 1;
  for (uintptr_t i = o >> 3; i <= e >> 3; i++) {
    uint8_t s = shadow[i];
    if (!s) continue;
    if (s < 8) { unsigned last = (i == e >> 3) ? (e & 7) : 7; if (last < s) continue; }
    const char* what = s == 0xFD ? (w ? "write to freed memory" : "read of freed memory")
                                 : (w ? "write outside an array" : "read outside an array");
    mem_report(what, a, n, pc);
    return;
  }
}
void mem_life_begin() {
  if (!shadow) {
    void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) sim_internal("arena");
    shadow = (uint8_t*)mmap(nullptr, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = (uintptr_t*)mmap(nullptr, MAXBLOCKS * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  g_arena_lo = ARENA; g_arena_hi = ARENA + ARENA_SZ;
  bump = ARENA + 4096 + (uintptr_t)(g.shm->k.heapshift & 0xffff) * 16;
  nalloc = 0; nblocks = 0; memset(siteset, 0, sizeof siteset);
}
static void* sim_alloc(size_t n, size_t align, bool zero) {
  if (g.in_op && g.armed) {
    g.shm->allocs++;
    if (g.cur_op >= 0 && g.cur_op < SIM_MAXOPS) {
      uint64_t key = (((uintptr_t)alloc_ra * 0x9E3779B97F4A7C15ull) ^ (n * 0xC2B2AE3D27D4EB4Full) ^ ((uint64_t)g.cur_op << 40)) | 1; unsigned h = (key >> 32) & 4095, t = 0;
      while (siteset[h] && siteset[h] != key && t < 64) h = (h + 1) & 4095, t++;
      if (!siteset[h] && g.shm->nasite < SIM_MAXASITE) { siteset[h] = key; g.shm->asite[g.shm->nasite++] = SimASite{(short)g.cur_op, g.shm->allocs_op[g.cur_op]}; }
      g.shm->allocs_op[g.cur_op]++;
    }
    yield_sync();
    SimFault* f = fault_hit(SYS_ALLOC, "");
    if (f) return nullptr;
  }
  if (n > (uint64_t)g.shm->k.memlimit) return nullptr;
  if (align < 16) align = 16;
  uintptr_t u = (bump + sizeof(Hdr) + RZ + align - 1) / align * align;
  // keep the user address 16-aligned but vary its alignment to 32/64 with the layout knob
  size_t tot = (u - bump) + n + RZ; tot = (tot + 15) / 16 * 16;
  if (bump + tot > g_arena_hi || nblocks >= MAXBLOCKS) {
    void* p = zero ? __libc_calloc(1, n) : __libc_memalign(align, n);
    if (p) race_forget((uintptr_t)p, n);
    return p;
  }
  uintptr_t b = bump; bump += tot;
  Hdr* h = (Hdr*)(u - RZ - sizeof(Hdr)); h->magic = MAGIC; h->size_lo = (uint32_t)n; h->size_hi = (uint32_t)((uint64_t)n >> 32); h->base = b; h->serial = ++nalloc;
  memset((void*)(u - RZ), 0xFA, RZ);
  if (zero) memset((void*)u, 0, n); else fill((void*)u, n, nalloc);
  memset((void*)(u + n), 0xFB, bump - (u + n));
  memset(shadow + ((b - ARENA) >> 3), 0xFA, (bump - b) >> 3);
  memset(shadow + ((u - ARENA) >> 3), 0, n >> 3);
  if (n & 7) shadow[(u - ARENA + n) >> 3] = n & 7;
  blocks[nblocks++] = u;
  return (void*)u;
}
static size_t blk_size(Hdr* h) { return (size_t)h->size_lo | ((size_t)h->size_hi << 32); }
static bool red_ok(uintptr_t u, Hdr* h) {
  for (size_t i = 0; i < RZ; i++) if (((uint8_t*)u)[-1 - (long)i] != 0xFA) return false;
  size_t n = blk_size(h); uintptr_t e = (u + n + RZ + 15) / 16 * 16;
  // the tail up to the end of the block
  for (uintptr_t p = u + n; p < u + n + RZ && p < e; p++) if (*(uint8_t*)p != 0xFB) return false;
  return true;
}
static void sim_free(void* p) {
  uintptr_t u = (uintptr_t)p; Hdr* h = (Hdr*)(u - RZ - sizeof(Hdr));
  if (h->magic == FREED) { mem_report("double free", u, 0, 0); return; }
  if (h->magic != MAGIC) { mem_report("free of an invalid pointer", u, 0, 0); return; }
  size_t n = blk_size(h);
  if (!red_ok(u, h)) mem_report("memory beyond a block was overwritten (seen at free)", u, n, 0);
  h->magic = FREED;
  if (g_race && n) race_range(u, n, true, g.repo_lo);
  fill(p, n, h->serial * 77 + 5);
  memset(shadow + ((u - ARENA) >> 3), 0xFD, (n + 7) >> 3);
}
extern "C" __attribute__((visibility("default"))) void sim_heap_check() {
  for (size_t i = 0; i < nblocks; i++) {
    uintptr_t u = blocks[i]; Hdr* h = (Hdr*)(u - RZ - sizeof(Hdr));
    if (h->magic == MAGIC) { if (!red_ok(u, h)) mem_report("memory beyond a block was overwritten", u, blk_size(h), 0); }
    else if (h->magic != FREED) mem_report("a block header was overwritten", u, 0, 0);
  }
}
#define EXP extern "C" __attribute__((visibility("default")))
#define RAP __builtin_return_address(0)
static inline bool mine(const void* ra) { alloc_ra = ra; return g.active && g.in_op && in_repo(ra); }
static inline bool mine_new(const void* ra) { alloc_ra = ra; return g.active && g.in_op && (in_repo(ra) || in_cxx(ra)); }

EXP void* malloc(size_t n) { if (mine(RAP)) { void* p = sim_alloc(n, 16, false); if (!p) errno = ENOMEM; return p; } return __libc_malloc(n); }
EXP void* calloc(size_t a, size_t b) {
  if (mine(RAP)) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = sim_alloc(n, 16, true); if (!p) errno = ENOMEM; return p; }
  return __libc_calloc(a, b);
}
EXP void free(void* p) { if (!p) return; if (in_arena((uintptr_t)p)) { int e = errno; sim_free(p); errno = e; return; } __libc_free(p); }
EXP void* realloc(void* p, size_t n) {
  if (p && in_arena((uintptr_t)p)) {
    Hdr* h = (Hdr*)((uintptr_t)p - RZ - sizeof(Hdr)); size_t o = blk_size(h);
    void* q = g.active && g.in_op ? sim_alloc(n, 16, false) : __libc_malloc(n);
    if (!q) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, o < n ? o : n); sim_free(p); return q;
  }
  if (!p && mine(RAP)) { void* q = sim_alloc(n, 16, false); if (!q) errno = ENOMEM; return q; }
  return __libc_realloc(p, n);
}
EXP void* memalign(size_t al, size_t n) { if (mine(RAP)) { void* p = sim_alloc(n, al, false); if (!p) errno = ENOMEM; return p; } return __libc_memalign(al, n); }
EXP void* aligned_alloc(size_t al, size_t n) { if (mine(RAP)) { void* p = sim_alloc(n, al, false); if (!p) errno = ENOMEM; return p; } return __libc_memalign(al, n); }
EXP int posix_memalign(void** r, size_t al, size_t n) {
  void* p = mine(RAP) ? sim_alloc(n, al, false) : __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *r = p; return 0;
}
static void* new_impl(size_t n, size_t al, const void* ra, bool nothrow) {
  void* p;
  if (mine_new(ra)) p = sim_alloc(n ? n : 1, al, false);
  else p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
#define VIS __attribute__((visibility("default")))
VIS void* operator new(size_t n) { return new_impl(n, 16, RAP, false); }
VIS void* operator new[](size_t n) { return new_impl(n, 16, RAP, false); }
VIS void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, RAP, true); }
VIS void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, RAP, true); }
VIS void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, RAP, false); }
VIS void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, RAP, false); }
VIS void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, (size_t)a, RAP, true); }
VIS void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, (size_t)a, RAP, true); }
VIS void operator delete(void* p) noexcept { free(p); }
VIS void operator delete[](void* p) noexcept { free(p); }
VIS void operator delete(void* p, size_t) noexcept { free(p); }
VIS void operator delete[](void* p, size_t) noexcept { free(p); }
VIS void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
VIS void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
VIS void operator delete(void* p, std::align_val_t) noexcept { free(p); }
VIS void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
VIS void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
VIS void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
